/// where round k starts
pub open spec fn rcstart<F: FromUniformBytes<64>>(s: Bits, t: nat, k: nat) -> Bits decreases k { if k == 0 { s } else { elem_rest::<F>(rcstart::<F>(s, t, (k - 1) as nat), t) } }
pub open spec fn rc_of<F: FromUniformBytes<64>>(s: Bits, t: nat, k: nat) -> Seq<F> { Seq::new(t, |i: int| elem::<F>(elem_rest::<F>(rcstart::<F>(s, t, k), i as nat))) }
/// the reference generator's stream for a specification
pub open spec fn seeded(nbits: u32, t: usize, rf: usize, rp: usize) -> Bits { stream(seed(1, 0, nbits as u16, t as u16, rf as u16, rp as u16), 240) }
/// round constants, matrix and inverse as the reference generates them from stream s
pub open spec fn gen_ok<F: FromUniformBytes<64>>(rc: Seq<Seq<F>>, m: Seq<Seq<F>>, inv: Seq<Seq<F>>, t: nat, n: nat, sel: nat, s: Bits) -> bool {
    let m0 = rcstart::<F>(s, t, n);
    &&& rc == Seq::new(n, |k: int| rc_of::<F>(s, t, k as nat))
    &&& is_sel::<F>(m0, t, sel, sel_at::<F>(m0, t, sel))
    &&& is_cauchy(m, xs_of::<F>(m0, t, sel), ys_of::<F>(m0, t, sel))
    &&& is_sch(inv, xs_of::<F>(m0, t, sel), ys_of::<F>(m0, t, sel))
}
pub trait Spec<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>: Sized {
    spec fn s_full_rounds() -> usize;
    spec fn s_partial_rounds() -> usize;
    spec fn s_secure_mds() -> usize;
    fn full_rounds() -> (r: usize) ensures r == Self::s_full_rounds();
    fn partial_rounds() -> (r: usize) ensures r == Self::s_partial_rounds();
    fn secure_mds() -> (r: usize) ensures r == Self::s_secure_mds();
}
//@@file poseidon-base/src/primitives.rs
//@@default Spec::constants as S
//@ opt #[verifier::exec_allows_no_decreases_clause]
//@ spec
        requires F::NUM_BITS <= 512, T <= 0x1_0000_0000, S::s_full_rounds() + S::s_partial_rounds() <= usize::MAX
        ensures gen_ok::<F>(rows(r.0@), rows(r.1@), rows(r.2@), T as nat, (S::s_full_rounds() + S::s_partial_rounds()) as nat, S::s_secure_mds() as nat, seeded(F::NUM_BITS, T, S::s_full_rounds(), S::s_partial_rounds()))
//@ loop 0
            invariant n0__ == r_f + r_p, i0__ <= n0__, grain.ok(), grain.bits() == rcstart::<F>(s, T as nat, i0__ as nat), v0__@.len() == i0__,
                forall|k: int| 0 <= k < i0__ ==> #[trigger] rows::<F, T>(v0__@)[k] == rc_of::<F>(s, T as nat, k as nat)
            decreases n0__ - i0__
//@ at before-loop 0
            let ghost s = grain.bits();
//@ at loop-begin 0
            let ghost sk = grain.bits();
            let ghost vk = rows(v0__@);
//@ at loop-end 0
            assert(rows(v0__@) =~= vk.push(rc_of::<F>(s, T as nat, j0__ as nat)));
//@ loop 1
            invariant n1__ == T, i1__ <= n1__, grain.ok(), grain.bits() == elem_rest::<F>(sk, i1__ as nat), forall|i: int| 0 <= i < i1__ ==> #[trigger] rc_row@[i] == elem::<F>(elem_rest::<F>(sk, i as nat))
            decreases n1__ - i1__
//@ at loop-begin 1
            proof { reveal_with_fuel(elem_rest, 2); }
//@ at after-loop 1
            assert(rc_row@ =~= rc_of::<F>(s, T as nat, j0__ as nat));
//@ at after-loop 0
        proof { assert(rows(v0__@) =~= Seq::new(n0__ as nat, |k: int| rc_of::<F>(s, T as nat, k as nat))); }
//@@end
