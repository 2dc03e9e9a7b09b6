// ---- the two parameter sets
//@@file poseidon-base/src/primitives/p128pow5t3.rs
//@@struct P128Pow5T3
//@@impl Spec<Fp,3,2>forP128Pow5T3<Fp> as P128Pow5T3
    open spec fn s_full_rounds() -> nat { 8 }
    open spec fn s_partial_rounds() -> nat { Fp::s_rp() }
    open spec fn s_sbox(v: Fp) -> Fp { fpow(v, 5) }
    open spec fn s_constants() -> (Seq<Seq<Fp>>, Seq<Seq<Fp>>) { (Fp::s_prc(), Fp::s_pmds()) }
    open spec fn s_constants_ok() -> bool { true }
//@ method full_rounds
//@ method partial_rounds
//@ method sbox
//@ method constants
//@@end
//@@file poseidon-base/src/primitives/p128pow5t3_compact.rs
//@@struct P128Pow5T3Compact
//@@fn mat_mul
    ensures r@ == mat_vec(rows(mat@), input@)
//@ loop 0
            invariant n0__ == T, i0__ <= n0__,
              forall|k: int| 0 <= k < i0__ ==> out@[k] == #[trigger] dot(mat@[k]@, input@, T as nat),
              forall|k: int| i0__ <= k < T ==> out@[k] == fzero::<Fp>(),
            decreases n0__ - i0__
//@ loop 1
                    invariant n0__ == T, n1__ == T, i1__ <= n1__, 0 <= i < T, i0__ == i + 1,
                      forall|k: int| 0 <= k < i ==> out@[k] == #[trigger] dot(mat@[k]@, input@, T as nat),
                      out@[i as int] == dot(mat@[i as int]@, input@, i1__ as nat),
                      forall|k: int| i < k < T ==> out@[k] == fzero::<Fp>(),
                    decreases n1__ - i1__
//@ at tail
    assert(out@ =~= mat_vec(rows(mat@), input@));
//@@end
//@@fn vec_accumulate
    ensures final(a)@ == add_rc(old(a)@, b@)
//@ loop 0
            invariant n0__ == T, i0__ <= n0__,
              forall|k: int| 0 <= k < i0__ ==> #[trigger] a@[k] == fadd(old(a)@[k], b@[k]),
              forall|k: int| i0__ <= k < T ==> #[trigger] a@[k] == old(a)@[k],
            decreases n0__ - i0__
//@ at tail
    assert(a@ =~= add_rc(old(a)@, b@));
//@@end
//@@fn vec_remove_tail
    requires T >= 1
    ensures r@ == tail_of(old(a)@), final(a)@ == head_of(old(a)@)
//@ loop 0
            invariant n0__ == T - 1, i0__ <= n0__, T >= 1, a@[0] == old(a)@[0], tail@[0] == fzero::<Fp>(),
              forall|k: int| 1 <= k < 1 + i0__ ==> #[trigger] a@[k] == fzero::<Fp>(),
              forall|k: int| 1 + i0__ <= k < T ==> #[trigger] a@[k] == old(a)@[k],
              forall|k: int| 1 <= k < 1 + i0__ ==> #[trigger] tail@[k] == old(a)@[k],
            decreases n0__ - i0__
//@ at tail
    assert(tail@ =~= tail_of(old(a)@));
    assert(a@ =~= head_of(old(a)@));
//@@end
//@@impl Spec<Fp,3,2>forP128Pow5T3Compact<Fp> as P128Pow5T3Compact
    open spec fn s_full_rounds() -> nat { 8 }
    open spec fn s_partial_rounds() -> nat { Fp::s_rp() }
    open spec fn s_sbox(v: Fp) -> Fp { fpow(v, 5) }
    open spec fn s_constants() -> (Seq<Seq<Fp>>, Seq<Seq<Fp>>) { (compact(Fp::s_prc(), Fp::s_pmds(), 4, Fp::s_rp()), Fp::s_pmds()) }
    open spec fn s_constants_ok() -> bool { Fp::s_prc().len() == 8 + Fp::s_rp() && Fp::s_rp() < 0x1_0000_0000 }
//@ method full_rounds
//@ method partial_rounds
//@ method sbox
//@ at tail
        proof {
            broadcast use mul_laws;
            pow5(val);
        }
//@ method constants
//@ loop 0
            invariant first_partial == 4, after_partials == 4 + Fp::s_rp(), n0__ == Fp::s_rp(), i0__ <= n0__, Self::s_constants_ok(), rc@.len() == 8 + Fp::s_rp(), rows(mds@) == Fp::s_pmds(),
              rows(rc@) == compact(Fp::s_prc(), Fp::s_pmds(), 4, i0__ as nat),
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost rc0 = rc@;
//@ at loop-end 0
            assert(rows(rc@) =~= cstep(rows(rc0), rows(mds@), i as int));
//@@end
