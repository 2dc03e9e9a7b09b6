// ---------------------------------------------------------------- C11: what the chip assigns satisfies its constraints
/// blocks of the permutations ss from the rows bs on, 8 rows apart, nothing else in the column of marks
pub open spec fn laid<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, bs: Seq<int>, ss: Seq<St<F>>) -> bool {
    &&& bs.len() == ss.len()
    &&& forall|i: int, j: int| 0 <= i < bs.len() && 0 <= j < bs.len() && i != j ==> #[trigger] bs[i] + 8 <= #[trigger] bs[j] || bs[j] + 8 <= bs[i]
    &&& forall|i: int| 0 <= i < bs.len() ==> block(ch, t, #[trigger] bs[i], ss[i])
    &&& forall|y: int| #[trigger] t(Col::Fixed(ch.cf() as int), y) == (if last_of(bs, y) { fone::<F>() } else { fzero::<F>() })
}
pub open spec fn block<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>) -> bool { forall|x: Col, y: int| #![trigger t(x, y)] ch.wit(s, b)(x, y) is Some ==> t(x, y) == ch.wit(s, b)(x, y)->0 }
pub open spec fn last_of(bs: Seq<int>, y: int) -> bool { exists|i: int| 0 <= i < bs.len() && #[trigger] bs[i] + 7 == y }
proof fn cell_is<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, x: Col, i: int)
    requires block(ch, t, b, s), 0 <= i < 8, ch.cell_of(s, x, i) is Some
    ensures t(x, b + i) == ch.cell_of(s, x, i)->0
{ assert(ch.wit(s, b)(x, b + i) == ch.cell_of(s, x, i)); }
proof fn sum8<F: CachedConstants>(ch: SeptidonChip, a: Around<F>, n: int)
    requires 0 <= n, forall|k: int| 0 <= k < 8 ==> #[trigger] ch.mark(a, k) == (if k == n { fone::<F>() } else { fzero::<F>() })
    ensures ch.control_chip.sel(a) == (if n < 8 { fone::<F>() } else { fzero::<F>() })
{
    broadcast use {super::f_add_zero_l, super::f_add_zero_r};
    let (m0, m1, m2, m3, m4, m5, m6, m7) = (ch.mark(a, 0), ch.mark(a, 1), ch.mark(a, 2), ch.mark(a, 3), ch.mark(a, 4), ch.mark(a, 5), ch.mark(a, 6), ch.mark(a, 7));
    assert(ch.control_chip.sel(a) == fadd(fadd(fadd(fadd(fadd(fadd(fadd(m0, m1), m2), m3), m4), m5), m6), m7));
}
/// the marks seen from row i of block n
proof fn marks_in<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, bs: Seq<int>, ss: Seq<St<F>>, n: int, i: int)
    requires laid(ch, t, bs, ss), 0 <= n < bs.len(), 0 <= i < 8
    ensures ({ let a = around(t, bs[n] + i); &&& ch.control_chip.sel(a) == fone::<F>() &&& ch.mark(a, 0) == (if i == 7 { fone::<F>() } else { fzero::<F>() }) &&& ch.mark(a, 4) == (if i == 3 { fone::<F>() } else { fzero::<F>() }) })
{
    let a = around(t, bs[n] + i);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] ch.mark(a, k) == (if k == 7 - i { fone::<F>() } else { fzero::<F>() }) by {
        let y = bs[n] + i + k;
        assert(ch.mark(a, k) == t(Col::Fixed(ch.cf() as int), y));
        if k == 7 - i { assert(bs[n] + 7 == y); assert(last_of(bs, y)); }
        else if last_of(bs, y) { let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j] + 7 == y; assert(j != n); }
    }
    sum8(ch, a, 7 - i);
}
/// the marks seen from a row of no block
proof fn marks_out<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, bs: Seq<int>, ss: Seq<St<F>>, y: int)
    requires laid(ch, t, bs, ss), forall|n: int| 0 <= n < bs.len() ==> !(#[trigger] bs[n] <= y < bs[n] + 8)
    ensures ch.control_chip.sel(around(t, y)) == fzero::<F>(), ch.mark(around(t, y), 4) == fzero::<F>()
{
    let a = around(t, y);
    assert forall|k: int| 0 <= k < 8 implies #[trigger] ch.mark(a, k) == (if k == 8 { fone::<F>() } else { fzero::<F>() }) by {
        assert(ch.mark(a, k) == t(Col::Fixed(ch.cf() as int), y + k));
        if last_of(bs, y + k) { let j = choose|j: int| 0 <= j < bs.len() && #[trigger] bs[j] + 7 == y + k; assert(bs[j] <= y < bs[j] + 8); }
    }
    sum8(ch, a, 8);
}
proof fn full_cells<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, y: int, o: int)
    requires block(ch, t, b, s), ch.wf(), b <= y + o < b + 8
    ensures ({ let i = y + o - b; let n = if i < 4 { i } else { i + 57 }; ch.full(around(t, y), o) == perm3(s, n) && (o == 0 ==> full_r(F::s_mds(), ch.full_round_chip.0.rcs(around(t, y)), perm3(s, n)) == perm3(s, n + 1)) })
{
    let (i, f, a) = (y + o - b, ch.full_round_chip.0, around(t, y));
    cell_is(ch, t, b, s, f.0@[0].input.column.c(), i); cell_is(ch, t, b, s, f.0@[1].input.column.c(), i); cell_is(ch, t, b, s, f.0@[2].input.column.c(), i);
    cell_is(ch, t, b, s, f.0@[0].rcol().c(), i); cell_is(ch, t, b, s, f.0@[1].rcol().c(), i); cell_is(ch, t, b, s, f.0@[2].rcol().c(), i);
    assert(f.0@[0].input.offset == 0 && f.0@[1].input.offset == 0 && f.0@[2].input.offset == 0);
    assert(b + i == y + o);
    if o == 0 {
        assert(f.rcs(a)[0] == full_rc::<F>(i, 0)); assert(f.rcs(a)[1] == full_rc::<F>(i, 1)); assert(f.rcs(a)[2] == full_rc::<F>(i, 2));
    }
}
proof fn part_cells<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, y: int, o: int)
    requires block(ch, t, b, s), ch.wf(), b <= y + o < b + 8
    ensures ch.part(around(t, y), o) == perm3(s, 5 + 7 * (y + o - b))
{
    let (i, p) = (y + o - b, ch.partial_round_chip);
    cell_is(ch, t, b, s, p.first_sbox.input.column.c(), i); cell_is(ch, t, b, s, p.first_linears@[0].column.c(), i); cell_is(ch, t, b, s, p.first_linears@[1].column.c(), i);
    assert(p.first_linears@[0].offset == 0 && p.first_linears@[1].offset == 0);
    assert(b + i == y + o);
}
proof fn chain_is<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>, i: int, k: int)
    requires block(ch, t, b, s), ch.wf(), 0 <= i < 8, 0 <= k <= 7
    ensures ch.partial_round_chip.chain(F::s_mds(), around(t, b + i), k) == perm3(s, 5 + 7 * i + k), k < 7 ==> ch.partial_round_chip.sbox(k).inp(around(t, b + i), 0) == perm3(s, 5 + 7 * i + k).a
    decreases k
{
    let (p, a) = (ch.partial_round_chip, around(t, b + i));
    if k < 7 {
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6);
        cell_is(ch, t, b, s, p.sbox(k).input.column.c(), i);
        assert(p.sbox(k).input.offset == 0);
    }
    if k > 0 {
        chain_is(ch, t, b, s, i, k - 1);
        assert(k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
        cell_is(ch, t, b, s, p.sbox(k - 1).rcol().c(), i);
        assert(p.sbox(k - 1).input.offset == 0);
        assert(p.sbox(k - 1).rc(a) == part_rc::<F>(i, k - 1));
    } else { part_cells(ch, t, b, s, b + i, 0); }
}
proof fn mid_cells<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int, s: St<F>)
    requires block(ch, t, b, s), ch.wf()
    ensures ch.mid(around(t, b + 3)) == perm3(s, 4), ch.mid(around(t, b + 7)) == perm3(s, 65)
{
    let x = ch.transition_chip.column.c();
    cell_is(ch, t, b, s, x, 1); cell_is(ch, t, b, s, x, 2); cell_is(ch, t, b, s, x, 3); cell_is(ch, t, b, s, x, 5); cell_is(ch, t, b, s, x, 6); cell_is(ch, t, b, s, x, 7);
}
proof fn pick_one<F: Field>(x: F, y: F) ensures pick(fone::<F>(), x, y) == x { broadcast use super::laws; assert(fsub(fone::<F>(), fone::<F>()) == fzero::<F>()); }
proof fn pick_zero<F: Field>(x: F, y: F) ensures pick(fzero::<F>(), x, y) == y { broadcast use super::laws; }
/// C11: the constraints hold on every row, in blocks and outside
pub proof fn permutation_complete<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, bs: Seq<int>, ss: Seq<St<F>>, y: int)
    requires laid(ch, t, bs, ss), ch.wf()
    ensures ch.own(around(t, y))
{
    if exists|n: int| 0 <= n < bs.len() && #[trigger] bs[n] <= y < bs[n] + 8 {
        let n = choose|n: int| 0 <= n < bs.len() && #[trigger] bs[n] <= y < bs[n] + 8;
        let (b, s, i, a, m) = (bs[n], ss[n], y - bs[n], around(t, y), F::s_mds());
        assert(b + i == y);
        marks_in(ch, t, bs, ss, n, i);
        broadcast use {super::f_zero_one, super::f_add_zero_l, super::f_add_zero_r};
        full_cells(ch, t, b, s, y, 0);
        chain_is(ch, t, b, s, i, 7); chain_is(ch, t, b, s, i, 6); chain_is(ch, t, b, s, i, 5); chain_is(ch, t, b, s, i, 4); chain_is(ch, t, b, s, i, 3); chain_is(ch, t, b, s, i, 2); chain_is(ch, t, b, s, i, 1);
        let body = full_r(m, ch.full_round_chip.0.rcs(a), ch.full(a, 0));
        let last = ch.partial_round_chip.chain(m, a, 7);
        mid_cells(ch, t, b, s);
        if i == 3 || i == 7 { pick_one(ch.mid(a).a, ch.full(a, 1).a); pick_one(ch.mid(a).b, ch.full(a, 1).b); pick_one(ch.mid(a).c, ch.full(a, 1).c); }
        else { full_cells(ch, t, b, s, y, 1); pick_zero(ch.mid(a).a, ch.full(a, 1).a); pick_zero(ch.mid(a).b, ch.full(a, 1).b); pick_zero(ch.mid(a).c, ch.full(a, 1).c); }
        if i == 3 { part_cells(ch, t, b, s, y, -3); }
        let (o, x) = (ch.full(a, -3), ch.part(a, 1));
        if i == 7 { full_cells(ch, t, b, s, y, -3); pick_one(o.a, x.a); pick_one(o.b, x.b); pick_one(o.c, x.c); }
        else { part_cells(ch, t, b, s, y, 1); pick_zero(o.a, x.a); pick_zero(o.b, x.b); pick_zero(o.c, x.c); }
    } else {
        marks_out(ch, t, bs, ss, y);
    }
}
/// the blocks of a batch: regions placed from rows base on
pub proof fn batch_laid<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, m: Cells<F>, base: int, cs: States<F>, j: int)
    requires chunk_cells(ch, m, cs), forall|x: Col, y: int| #[trigger] m(x, y) is Some ==> t(x, base + y) == m(x, y)->0, 0 <= j < cs.len()
    ensures block(ch, t, base + 8 * j, wst(cs[j]@))
{
    let (b, s) = (base + 8 * j, wst(cs[j]@));
    assert forall|x: Col, y: int| #![trigger t(x, y)] ch.wit(s, b)(x, y) is Some implies t(x, y) == ch.wit(s, b)(x, y)->0 by {
        let z = y - base;
        assert(z / 8 == j && z % 8 == y - b) by { assert(z == 8 * j + (y - b)); }
        assert(m(x, z) == filled(ch, cs, cs.len() as int)(x, z));
    }
}
