// ---- matrix candidates, specified from the generator's remaining bit stream s
/// the next n elements drawn without rejection
pub open spec fn draws<F: FromUniformBytes<64>>(s: Bits, n: nat) -> Seq<F> { Seq::new(n, |i: int| raw::<F>(raw_rest::<F>(s, i as nat))) }
/// where candidate c starts: after c candidates of 2t elements
pub open spec fn cstart<F: FromUniformBytes<64>>(s: Bits, t: nat, c: nat) -> Bits decreases c { if c == 0 { s } else { raw_rest::<F>(cstart::<F>(s, t, (c - 1) as nat), 2 * t) } }
pub open spec fn cand<F: FromUniformBytes<64>>(s: Bits, t: nat, c: nat) -> Seq<F> { draws::<F>(cstart::<F>(s, t, c), 2 * t) }
/// the number of candidates before c whose elements are pairwise distinct
pub open spec fn passed<F: FromUniformBytes<64>>(s: Bits, t: nat, c: nat) -> nat decreases c { if c == 0 { 0 } else { passed::<F>(s, t, (c - 1) as nat) + if cand::<F>(s, t, (c - 1) as nat).no_duplicates() { 1nat } else { 0 } } }
/// c is the first distinct candidate after sel skipped ones
pub open spec fn is_sel<F: FromUniformBytes<64>>(s: Bits, t: nat, sel: nat, c: nat) -> bool { cand::<F>(s, t, c).no_duplicates() && passed::<F>(s, t, c) == sel }
pub open spec fn sel_at<F: FromUniformBytes<64>>(s: Bits, t: nat, sel: nat) -> nat { choose|c: nat| is_sel::<F>(s, t, sel, c) }
pub proof fn passed_mono<F: FromUniformBytes<64>>(s: Bits, t: nat, a: nat, b: nat) requires a <= b ensures passed::<F>(s, t, a) <= passed::<F>(s, t, b) decreases b - a { if a < b { passed_mono::<F>(s, t, a, (b - 1) as nat); } }
pub proof fn sel_is<F: FromUniformBytes<64>>(s: Bits, t: nat, sel: nat, c: nat) requires is_sel::<F>(s, t, sel, c) ensures sel_at::<F>(s, t, sel) == c
{
    let d = sel_at::<F>(s, t, sel);
    assert(is_sel::<F>(s, t, sel, d));
    if c < d { passed_mono::<F>(s, t, c + 1, d); } else if d < c { passed_mono::<F>(s, t, d + 1, c); }
}
pub open spec fn xs_of<F: FromUniformBytes<64>>(s: Bits, t: nat, sel: nat) -> Seq<F> { cand::<F>(s, t, sel_at::<F>(s, t, sel)).subrange(0, t as int) }
pub open spec fn ys_of<F: FromUniformBytes<64>>(s: Bits, t: nat, sel: nat) -> Seq<F> { cand::<F>(s, t, sel_at::<F>(s, t, sel)).subrange(t as int, 2 * t as int) }
pub open spec fn is_cauchy<F: FromUniformBytes<64>>(m: Seq<Seq<F>>, xs: Seq<F>, ys: Seq<F>) -> bool {
    &&& m.len() == xs.len()
    &&& forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i].len() == ys.len()
    &&& forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < ys.len() ==> #[trigger] m[i][j] == finv(fadd(xs[i], ys[j])) && fadd(xs[i], ys[j]) != fzero::<F>()
}
/// the Lagrange basis polynomial of node j of xs (its first n factors), at x
pub open spec fn lag<F>(xs: Seq<F>, j: int, x: F, n: nat) -> F decreases n {
    if n == 0 { fnat::<F>(1) } else if n - 1 == j { lag(xs, j, x, (n - 1) as nat) } else { fmul(fmul(lag(xs, j, x, (n - 1) as nat), fsub(x, xs[n - 1])), finv(fsub(xs[j], xs[n - 1]))) }
}
pub open spec fn negs<F>(ys: Seq<F>) -> Seq<F> { Seq::new(ys.len(), |i: int| fneg(ys[i])) }
/// Schechter's entry of the inverse of the Cauchy matrix 1/(x_i - y_j), at -ys
pub open spec fn sch<F>(xs: Seq<F>, ys: Seq<F>, i: int, j: int) -> F {
    fmul(fmul(fsub(xs[j], fneg(ys[i])), lag(xs, j, fneg(ys[i]), xs.len())), lag(negs(ys), i, xs[j], ys.len()))
}
pub open spec fn is_sch<F>(m: Seq<Seq<F>>, xs: Seq<F>, ys: Seq<F>) -> bool {
    &&& m.len() == xs.len()
    &&& forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i].len() == xs.len()
    &&& forall|i: int, j: int| 0 <= i < xs.len() && 0 <= j < xs.len() ==> #[trigger] m[i][j] == sch(xs, ys, i, j)
}
pub proof fn negs_distinct<F: Field>(ys: Seq<F>) requires ys.no_duplicates() ensures negs(ys).no_duplicates()
{
    let n = negs(ys);
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if n[i] == n[j] { fneg_inj::<F>(ys[i], ys[j]); } }
}
pub proof fn halves<F>(s: Seq<F>, t: nat) requires s.no_duplicates(), s.len() == 2 * t ensures s.subrange(0, t as int).no_duplicates(), s.subrange(t as int, 2 * t as int).no_duplicates()
{
    let a = s.subrange(0, t as int); let b = s.subrange(t as int, 2 * t as int);
    assert forall|i: int, j: int| 0 <= i < t && 0 <= j < t && i != j implies a[i] != a[j] && b[i] != b[j] by { assert(s[i] != s[j]); assert(s[t + i] != s[t + j]); }
}

//@@file poseidon-base/src/primitives/mds.rs
//@@fn generate_mds
//@ opt type l.j usize
//@ opt type l F
//@ opt type b0__ (Vec<F>, Vec<F>, Mds<F, T>)
//@ opt type b1__ (Vec<F>, Vec<F>)
//@ opt refuses
//@ opt #[verifier::exec_allows_no_decreases_clause]
//@ spec
        requires old(grain).ok(), F::NUM_BITS <= 512, T <= 0x1_0000_0000
        ensures final(grain).ok(), is_sel::<F>(old(grain).bits(), T as nat, select as nat, sel_at::<F>(old(grain).bits(), T as nat, select as nat)),
            is_cauchy(rows(r.0@), xs_of::<F>(old(grain).bits(), T as nat, select as nat), ys_of::<F>(old(grain).bits(), T as nat, select as nat)),
            is_sch(rows(r.1@), xs_of::<F>(old(grain).bits(), T as nat, select as nat), ys_of::<F>(old(grain).bits(), T as nat, select as nat)),
            final(grain).bits() == cstart::<F>(old(grain).bits(), T as nat, sel_at::<F>(old(grain).bits(), T as nat, select as nat) + 1)
//@ at begin
        let ghost s0 = grain.bits();
        let ghost sel0 = select as nat;
        let ghost mut c: nat = 0;
//@ loop 0
            invariant_except_break b0__ is None, grain.ok(), F::NUM_BITS <= 512, T <= 0x1_0000_0000, grain.bits() == cstart::<F>(s0, T as nat, c), passed::<F>(s0, T as nat, c) + select == sel0
            ensures grain.ok(), c > 0, sel_at::<F>(s0, T as nat, sel0) + 1 == c, is_sel::<F>(s0, T as nat, sel0, (c - 1) as nat), grain.bits() == cstart::<F>(s0, T as nat, c), b0__ is Some,
                (b0__->Some_0).0@ == xs_of::<F>(s0, T as nat, sel0), (b0__->Some_0).1@ == ys_of::<F>(s0, T as nat, sel0),
                (b0__->Some_0).0@.no_duplicates(), (b0__->Some_0).1@.no_duplicates(), (b0__->Some_0).0@.len() == T, (b0__->Some_0).1@.len() == T,
                is_cauchy(rows((b0__->Some_0).2@), (b0__->Some_0).0@, (b0__->Some_0).1@)
//@ loop 1
            invariant_except_break b1__ is None, grain.ok(), F::NUM_BITS <= 512, T <= 0x1_0000_0000, grain.bits() == cstart::<F>(s0, T as nat, c), passed::<F>(s0, T as nat, c) + select == sel0
            ensures grain.ok(), c > 0, grain.bits() == cstart::<F>(s0, T as nat, c), passed::<F>(s0, T as nat, (c - 1) as nat) + select == sel0, cand::<F>(s0, T as nat, (c - 1) as nat).no_duplicates(),
                b1__ is Some, (b1__->Some_0).0@ == cand::<F>(s0, T as nat, (c - 1) as nat).subrange(0, T as int), (b1__->Some_0).1@ == cand::<F>(s0, T as nat, (c - 1) as nat).subrange(T as int, 2 * T as int)
//@ at loop-begin 1
            let ghost s = grain.bits();
//@ loop 2
            invariant n2__ == 2 * T, i2__ <= n2__, F::NUM_BITS <= 512, grain.ok(), grain.bits() == raw_rest::<F>(s, i2__ as nat), v2__@ == draws::<F>(s, i2__ as nat)
            decreases n2__ - i2__
//@ at loop-end 2
            proof { reveal_with_fuel(raw_rest, 2); assert(v2__@ =~= draws::<F>(s, i2__ as nat)); }
//@ at before-loop 2
            assert(v2__@ =~= draws::<F>(s, 0));
//@ at after-loop 2
            proof { c = c + 1; assert(v2__@ == cand::<F>(s0, T as nat, (c - 1) as nat)); }
//@ at before-loop 3
            proof { sel_is::<F>(s0, T as nat, sel0, (c - 1) as nat); halves(cand::<F>(s0, T as nat, (c - 1) as nat), T as nat); }
//@ loop 3
            invariant n3__ == T, i3__ <= n3__, xs@.len() == T, ys@.len() == T,
                forall|a: int, b: int| 0 <= a < i3__ && 0 <= b < T ==> #[trigger] mds@[a]@[b] == finv(fadd(xs@[a], ys@[b])) && fadd(xs@[a], ys@[b]) != fzero::<F>()
            decreases n3__ - i3__
//@ loop 4
            invariant n4__ == T, i4__ <= n4__, i < T, xs@.len() == T, ys@.len() == T,
                forall|a: int, b: int| 0 <= a < i && 0 <= b < T ==> #[trigger] mds@[a]@[b] == finv(fadd(xs@[a], ys@[b])) && fadd(xs@[a], ys@[b]) != fzero::<F>(),
                forall|b: int| 0 <= b < i4__ ==> #[trigger] mds@[i as int]@[b] == finv(fadd(xs@[i as int], ys@[b])) && fadd(xs@[i as int], ys@[b]) != fzero::<F>()
            decreases n4__ - i4__
//@ at loop-begin 4
            proof { add_comm(xs@[i as int], ys@[j4__ as int]); }
//@ loop 5
            invariant n5__ == ys@.len(), i5__ <= n5__, v5__@ == negs(ys@.take(i5__ as int))
            decreases n5__ - i5__
//@ at before-loop 5
            assert(v5__@ =~= negs(ys@.take(0)));
//@ at loop-end 5
            assert(v5__@ =~= negs(ys@.take(i5__ as int)));
//@ at after-loop 5
            assert(ys@.take(i5__ as int) =~= ys@);
            proof { negs_distinct::<F>(ys@); }
//@ loop 6
            invariant n6__ == T, i6__ <= n6__, xs@.len() == T, ys@.len() == T, neg_ys@ == negs(ys@), xs@.no_duplicates(), neg_ys@.no_duplicates(),
                forall|a: int, b: int| 0 <= a < i6__ && 0 <= b < T ==> #[trigger] mds_inv@[a]@[b] == sch(xs@, ys@, a, b)
            decreases n6__ - i6__
//@ loop 7
            invariant n7__ == T, i7__ <= n7__, i < T, xs@.len() == T, ys@.len() == T, neg_ys@ == negs(ys@), xs@.no_duplicates(), neg_ys@.no_duplicates(),
                forall|a: int, b: int| 0 <= a < i && 0 <= b < T ==> #[trigger] mds_inv@[a]@[b] == sch(xs@, ys@, a, b),
                forall|b: int| 0 <= b < i7__ ==> #[trigger] mds_inv@[i as int]@[b] == sch(xs@, ys@, i as int, b)
            decreases n7__ - i7__
//@ at loop-begin 7
            proof {
                let (x, y, n) = (xs@[j7__ as int], ys@[i as int], fneg(ys@[i as int]));
                let (a, b) = (lag(xs@, j7__ as int, n, T as nat), lag(negs(ys@), i as int, x, T as nat));
                perm3(fsub(x, n), a, b); sub_neg(x, y); add_comm(x, y);
            }
//@ closure l
//@ spec
        requires j < xs@.len(), xs@.no_duplicates()
        ensures r == lag(xs@, j as int, x, xs@.len())
//@ loop 0
            invariant n0__ == xs@.len(), i0__ <= n0__, j < xs@.len(), xs@.no_duplicates(), x_j == xs@[j as int], acc == lag(xs@, j as int, x, i0__ as nat)
            decreases n0__ - i0__
//@ at loop-begin 0
            proof { perm3(acc, fsub(x, xs@[j0__ as int]), finv(fsub(x_j, xs@[j0__ as int])));
                if j0__ != j && fsub(x_j, xs@[j0__ as int]) == fzero::<F>() { fsub_zero::<F>(x_j, xs@[j0__ as int]); } }
//@@end
