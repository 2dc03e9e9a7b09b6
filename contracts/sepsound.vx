// ---------------------------------------------------------------- C10: the constraints force the permutation
/// the values of all cells: column, row
pub type Filled<F> = spec_fn(Col, int) -> F;
pub open spec fn around<F>(t: Filled<F>, row: int) -> Around<F> { |c: Col, o: int| t(c, row + o) }
/// the fixed cells of a permutation whose first row is b
pub open spec fn fixed_ok<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int) -> bool {
    &&& forall|k: int| 0 <= k < 15 ==> #[trigger] ch.mark(around(t, b), k) == (if k == 7 { fone::<F>() } else { fzero::<F>() })
    &&& forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 3 ==> t(#[trigger] ch.full_round_chip.0.0@[j].rcol().c(), #[trigger] row(b, i)) == full_rc::<F>(i, j)
    &&& forall|i: int, k: int| 0 <= i < 8 && 0 <= k < 7 ==> t(#[trigger] ch.partial_round_chip.sbox(k).rcol().c(), #[trigger] row(b, i)) == part_rc::<F>(i, k)
}
pub open spec fn row(b: int, i: int) -> int { b + i }
proof fn marks<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, i: int)
    requires fixed_ok(ch, t, b), 0 <= i < 8
    ensures ({ let a = around(t, b + i); &&& ch.control_chip.sel(a) == fone::<F>() &&& ch.mark(a, 0) == (if i == 7 { fone::<F>() } else { fzero::<F>() }) &&& ch.mark(a, 4) == (if i == 3 { fone::<F>() } else { fzero::<F>() }) })
{
    broadcast use {super::f_add_zero_l, super::f_add_zero_r};
    let a = around(t, b + i);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] ch.mark(a, k) == (if i + k == 7 { fone::<F>() } else { fzero::<F>() }) by {
        assert(ch.mark(around(t, b), i + k) == ch.mark(a, k)) by { assert(b + (i + k) == (b + i) + k); }
    }
    let z = fzero::<F>();
    assert(ch.mark(a, 0) == ch.control_chip.mark(a, 0));
    let (m0, m1, m2, m3, m4, m5, m6, m7) = (ch.mark(a, 0), ch.mark(a, 1), ch.mark(a, 2), ch.mark(a, 3), ch.mark(a, 4), ch.mark(a, 5), ch.mark(a, 6), ch.mark(a, 7));
    assert(ch.control_chip.sel(a) == fadd(fadd(fadd(fadd(fadd(fadd(fadd(m0, m1), m2), m3), m4), m5), m6), m7));
}
/// a switch of the loop: on takes the output, off the next row
proof fn switch<F: CachedConstants>(q: F, b: F, out: St<F>, next: St<F>, body: St<F>)
    requires loop_ok(q, b, out, next, body), q == fone::<F>()
    ensures b == fone::<F>() ==> out == body, b == fzero::<F>() ==> next == body
{
    broadcast use super::laws;
    assert(fsub(fone::<F>(), fone::<F>()) == fzero::<F>());
}
/// seven partial rounds in a row
proof fn seven<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, i: int, s: St<F>, k: int)
    requires fixed_ok(ch, t, b), ch.wf(), 0 <= i < 8, 0 <= k <= 7, ch.partial_round_chip.linked(F::s_mds(), around(t, b + i)), ch.part(around(t, b + i), 0) == perm3(s, 5 + 7 * i)
    ensures ch.partial_round_chip.chain(F::s_mds(), around(t, b + i), k) == perm3(s, 5 + 7 * i + k)
    decreases k
{
    let (p, a, m) = (ch.partial_round_chip, around(t, b + i), F::s_mds());
    if k > 0 {
        seven(ch, t, b, i, s, k - 1);
        let x = p.sbox(k - 1);
        assert(k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
        assert(x.inp(a, 0) == p.chain(m, a, k - 1).a);
        assert(t(p.sbox(k - 1).rcol().c(), row(b, i)) == part_rc::<F>(i, k - 1));
        assert(x.input.offset == 0);
        assert(x.rc(a) == part_rc::<F>(i, k - 1));
    }
}
/// rows 0 to 3
proof fn first_half<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, i: int)
    requires fixed_ok(ch, t, b), ch.wf(), 0 <= i < 4, forall|j: int| 0 <= j < 8 ==> ch.own(#[trigger] around(t, b + j)), ch.full(around(t, b), 0) == s
    ensures ch.full(around(t, b + i), 0) == perm3(s, i)
    decreases i
{
    if i > 0 {
        first_half(ch, t, b, s, i - 1);
        one_full(ch, t, b, s, i - 1, i - 1);
        assert(b + (i - 1) + 1 == b + i);
    } else { assert(around(t, b + 0) =~= around(t, b)); }
}
/// a full round at row i
proof fn one_full<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, i: int, n: int)
    requires fixed_ok(ch, t, b), ch.wf(), 0 <= i < 8, n == (if i < 4 { i } else { i + 57 }), forall|j: int| 0 <= j < 8 ==> ch.own(#[trigger] around(t, b + j)), ch.full(around(t, b + i), 0) == perm3(s, n)
    ensures i != 3 && i != 7 ==> ch.full(around(t, b + i), 1) == perm3(s, n + 1), i == 3 || i == 7 ==> ch.mid(around(t, b + i)) == perm3(s, n + 1)
{
    broadcast use {super::f_add_zero_l, super::f_add_zero_r};
    let (f, a, m) = (ch.full_round_chip.0, around(t, b + i), F::s_mds());
    assert(ch.own(around(t, b + i)));
    marks(ch, t, b, i);
    assert(f.rcs(a) =~= seq![full_rc::<F>(i, 0), full_rc::<F>(i, 1), full_rc::<F>(i, 2)]) by {
        assert(t(f.0@[0].rcol().c(), row(b, i)) == full_rc::<F>(i, 0));
        assert(t(f.0@[1].rcol().c(), row(b, i)) == full_rc::<F>(i, 1));
        assert(t(f.0@[2].rcol().c(), row(b, i)) == full_rc::<F>(i, 2));
    }
    assert(full_r(m, f.rcs(a), ch.full(a, 0)) == perm3(s, n + 1));
    switch(ch.control_chip.sel(a), fadd(ch.mark(a, 4), ch.mark(a, 0)), ch.mid(a), ch.full(a, 1), full_r(m, f.rcs(a), ch.full(a, 0)));
}
/// the septuple rounds
proof fn middle<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, i: int)
    requires fixed_ok(ch, t, b), ch.wf(), 0 <= i < 8, forall|j: int| 0 <= j < 8 ==> ch.own(#[trigger] around(t, b + j)), ch.full(around(t, b), 0) == s
    ensures ch.part(around(t, b + i), 0) == perm3(s, 5 + 7 * i), ch.partial_round_chip.chain(F::s_mds(), around(t, b + i), 7) == perm3(s, 5 + 7 * i + 7)
    decreases i
{
    let (p, a, m) = (ch.partial_round_chip, around(t, b + i), F::s_mds());
    assert(ch.own(around(t, b + i)));
    marks(ch, t, b, i);
    broadcast use super::f_zero_one;
    if i == 0 {
        first_half(ch, t, b, s, 3);
        one_full(ch, t, b, s, 3, 3);
        marks(ch, t, b, 3);
        assert(ch.own(around(t, b + 3)));
        assert(b + 3 - 3 == b + 0);
        assert(ch.part(around(t, b + 3), -3) == ch.part(around(t, b + 0), 0));
        assert(ch.mid(around(t, b + 3)) == perm3(s, 4));
    } else {
        middle(ch, t, b, s, i - 1);
        marks(ch, t, b, i - 1);
        let a1 = around(t, b + (i - 1));
        assert(ch.own(a1));
        switch(ch.control_chip.sel(a1), ch.mark(a1, 0), ch.full(a1, -3), ch.part(a1, 1), p.chain(m, a1, 7));
        assert(b + (i - 1) + 1 == b + i);
        assert(ch.part(a1, 1) == ch.part(a, 0));
    }
    seven(ch, t, b, i, s, 7);
}
/// rows 4 to 7
proof fn second_half<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, i: int)
    requires fixed_ok(ch, t, b), ch.wf(), 4 <= i < 8, forall|j: int| 0 <= j < 8 ==> ch.own(#[trigger] around(t, b + j)), ch.full(around(t, b), 0) == s
    ensures ch.full(around(t, b + i), 0) == perm3(s, i + 57)
    decreases i
{
    if i == 4 {
        middle(ch, t, b, s, 7);
        marks(ch, t, b, 7);
        let a = around(t, b + 7);
        assert(ch.own(a));
        switch(ch.control_chip.sel(a), ch.mark(a, 0), ch.full(a, -3), ch.part(a, 1), ch.partial_round_chip.chain(F::s_mds(), a, 7));
        assert(b + 7 - 3 == b + 4);
        assert(ch.full(a, -3) == ch.full(around(t, b + 4), 0));
    } else {
        second_half(ch, t, b, s, i - 1);
        one_full(ch, t, b, s, i - 1, i - 1 + 57);
        assert(b + (i - 1) + 1 == b + i);
    }
}
/// C10: whatever is in the cells, the final state is the permutation of the initial one
pub proof fn permutation_sound<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int)
    requires fixed_ok(ch, t, b), ch.wf(), forall|j: int| 0 <= j < 8 ==> ch.own(#[trigger] around(t, b + j))
    ensures ch.mid(around(t, b + 7)) == perm3(ch.full(around(t, b), 0), 65)
{
    let s = ch.full(around(t, b), 0);
    second_half(ch, t, b, s, 7);
    one_full(ch, t, b, s, 7, 64);
}
// the same permutation in the words of the published specification: three additions, the s-box, the matrix
pub open spec fn dot<F>(a: Seq<F>, b: Seq<F>, n: nat) -> F decreases n {
    if n == 0 { fzero() } else { fadd(dot(a, b, (n - 1) as nat), fmul(a[n - 1], b[n - 1])) }
}
pub open spec fn mat_vec<F>(m: Seq<Seq<F>>, s: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| dot(m[i], s, s.len())) }
pub open spec fn add_rc<F>(s: Seq<F>, rc: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| fadd(s[i], rc[i])) }
pub open spec fn full_s<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> { mat_vec(m, add_rc(s, rc).map_values(|x: F| p5(x))) }
pub open spec fn part_s<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> { mat_vec(m, add_rc(s, rc).update(0, p5(add_rc(s, rc)[0]))) }
pub open spec fn is_full(i: int, h: int, p: int) -> bool { i < h || i >= h + p }
pub open spec fn rounds<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, n: nat) -> Seq<F> decreases n {
    if n == 0 { s } else {
        let t = rounds(s, m, rc, (n - 1) as nat);
        if is_full(n - 1, 4, 57) { full_s(t, m, rc[n - 1]) } else { part_s(t, m, rc[n - 1]) }
    }
}
/// partial rounds add to the first word only (C07: the compact form of the constants)
pub open spec fn compacted<F: CachedConstants>() -> bool { forall|i: int| 4 <= i < 61 ==> (#[trigger] F::s_rc()[i])[1] == fzero::<F>() && F::s_rc()[i][2] == fzero::<F>() }
proof fn one_lin<F: Field>(m: Seq<Seq<F>>, s: Seq<F>)
    requires s.len() == 3, m.len() == 3
    ensures st(mat_vec(m, s)) == lin(m, st(s))
{
    reveal(lin); reveal_with_fuel(dot, 4);
    broadcast use {super::f_mul_comm, super::f_add_zero_l};
}
/// the rounds of the circuit are the published ones
pub proof fn published<F: CachedConstants>(s: Seq<F>, n: nat)
    requires s.len() == 3, F::s_mds().len() == 3, compacted::<F>(), n <= 65
    ensures st(rounds(s, F::s_mds(), F::s_rc(), n)) == perm3(st(s), n as int), rounds(s, F::s_mds(), F::s_rc(), n).len() == 3
    decreases n
{
    if n > 0 {
        published(s, (n - 1) as nat);
        let (t, m, k) = (rounds(s, F::s_mds(), F::s_rc(), (n - 1) as nat), F::s_mds(), F::s_rc()[n - 1]);
        broadcast use super::f_add_zero_r;
        if is_full(n - 1, 4, 57) {
            let u = add_rc(t, k).map_values(|x: F| p5(x));
            one_lin(m, u);
        } else {
            let u = add_rc(t, k).update(0, p5(add_rc(t, k)[0]));
            one_lin(m, u);
        }
    }
}
