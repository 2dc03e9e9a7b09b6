// ---------------------------------------------------------------- C10: what a batch forces on the words it is given and returns
/// the value at a position, regions being placed from the rows base on
pub open spec fn val<F>(t: Filled<F>, base: spec_fn(int) -> int, at: At) -> F { t(at.1, base(at.0) + at.2) }
pub open spec fn obeyed<F>(t: Filled<F>, base: spec_fn(int) -> int, s: Set<At>) -> bool { forall|x: At, y: At| s.contains(x) && s.contains(y) ==> val(t, base, x) == val(t, base, y) }
pub open spec fn all_obeyed<F>(t: Filled<F>, base: spec_fn(int) -> int, s: Seq<Set<At>>) -> bool { forall|i: int| 0 <= i < s.len() ==> obeyed(t, base, #[trigger] s[i]) }
/// the values at the cells behind three words
pub open spec fn vals<F: PrimeField>(t: Filled<F>, base: spec_fn(int) -> int, s: Seq<StateWord<F>>) -> St<F> { St { a: val(t, base, s[0].0.at@), b: val(t, base, s[1].0.at@), c: val(t, base, s[2].0.at@) } }
pub open spec fn marks_ok<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, b: int) -> bool { forall|k: int| 0 <= k < 15 ==> #[trigger] ch.mark(around(t, b), k) == (if k == 7 { fone::<F>() } else { fzero::<F>() }) }
/// the fixed cells of a region
pub open spec fn fixed_placed<F>(t: Filled<F>, base: int, m: Cells<F>) -> bool { forall|i: int, y: int| #[trigger] m(Col::Fixed(i), y) is Some ==> t(Col::Fixed(i), base + y) == m(Col::Fixed(i), y)->0 }
proof fn split<F>(t: Filled<F>, base: spec_fn(int) -> int, s: Seq<Set<At>>, u: Seq<Set<At>>)
    requires all_obeyed(t, base, s + u)
    ensures all_obeyed(t, base, s), all_obeyed(t, base, u)
{
    assert forall|i: int| 0 <= i < s.len() implies obeyed(t, base, #[trigger] s[i]) by { assert((s + u)[i] == s[i]); }
    assert forall|i: int| 0 <= i < u.len() implies obeyed(t, base, #[trigger] u[i]) by { assert((s + u)[s.len() + i] == u[i]); }
}
proof fn chunk_obeyed<F: PrimeField>(ch: SeptidonChip, t: Filled<F>, base: spec_fn(int) -> int, g: int, cs: States<F>, n: int, j: int)
    requires all_obeyed(t, base, chunk_links(ch, g, cs, n)), 0 <= j < n
    ensures all_obeyed(t, base, entered(ch, g, 8 * j, cs[j]@))
    decreases n
{
    split(t, base, chunk_links(ch, g, cs, n - 1), entered(ch, g, 8 * (n - 1), cs[n - 1]@));
    if j < n - 1 { chunk_obeyed(ch, t, base, g, cs, n - 1, j); }
}
proof fn batch_obeyed<F: PrimeField>(ch: SeptidonChip, t: Filled<F>, base: spec_fn(int) -> int, g: int, ss: States<F>, l: int, n: int, k: int)
    requires all_obeyed(t, base, batch_links(ch, g, ss, l, n)), 0 <= k < n
    ensures all_obeyed(t, base, chunk_links(ch, g + k, piece_of(ss, l, k), piece_of(ss, l, k).len() as int))
    decreases n
{
    split(t, base, batch_links(ch, g, ss, l, n - 1), chunk_links(ch, g + n - 1, piece_of(ss, l, n - 1), piece_of(ss, l, n - 1).len() as int));
    if k < n - 1 { batch_obeyed(ch, t, base, g, ss, l, n - 1, k); }
}
/// a block whose first row is tied to three words
proof fn block_forced<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, base: spec_fn(int) -> int, g: int, b: int, s: Seq<StateWord<F>>, w: St<F>, m: Cells<F>, r: Seq<StateWord<F>>)
    requires ch.wf(), forall|i: int| 0 <= i < 8 ==> ch.own(#[trigger] around(t, base(g) + b + i)), all_obeyed(t, base, entered(ch, g, b, s)), left(ch, g, b, wst(s), r), marks_ok(ch, t, base(g) + b), fixed_placed(t, base(g), m),
        forall|i: int, y: int| 0 <= y < 8 ==> #[trigger] m(Col::Fixed(i), b + y) == ch.cell_of(wst(s), Col::Fixed(i), y)
    ensures vals(t, base, r) == perm3(vals(t, base, s), 65)
{
    let (f, z, e) = (ch.full_round_chip.0, base(g) + b, entered(ch, g, b, s));
    assert(obeyed(t, base, e[0]) && obeyed(t, base, e[1]) && obeyed(t, base, e[2]));
    let (p0, p1, p2) = ((g, f.0@[0].input.column.c(), b), (g, f.0@[1].input.column.c(), b), (g, f.0@[2].input.column.c(), b));
    assert(e[0].contains(p0) && e[0].contains(s[0].0.at@)); assert(e[1].contains(p1) && e[1].contains(s[1].0.at@)); assert(e[2].contains(p2) && e[2].contains(s[2].0.at@));
    assert(val(t, base, p0) == val(t, base, s[0].0.at@)); assert(val(t, base, p1) == val(t, base, s[1].0.at@)); assert(val(t, base, p2) == val(t, base, s[2].0.at@));
    assert(f.0@[0].input.offset == 0 && f.0@[1].input.offset == 0 && f.0@[2].input.offset == 0);
    assert(ch.full(around(t, z), 0) == vals(t, base, s));
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < 3 implies t(#[trigger] f.0@[j].rcol().c(), #[trigger] row(z, i)) == full_rc::<F>(i, j) by {
        assert(j == 0 || j == 1 || j == 2);
        let x = f.0@[j].rcol().c();
        assert(x == Col::Fixed(ch.ff() as int + j));
        assert(m(Col::Fixed(ch.ff() as int + j), b + i) is Some);
        assert(base(g) + (b + i) == row(z, i));
    }
    assert forall|i: int, k: int| 0 <= i < 8 && 0 <= k < 7 implies t(#[trigger] ch.partial_round_chip.sbox(k).rcol().c(), #[trigger] row(z, i)) == part_rc::<F>(i, k) by {
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6);
        let x = ch.partial_round_chip.sbox(k).rcol().c();
        assert(x == Col::Fixed(ch.pf() as int + k));
        assert(m(Col::Fixed(ch.pf() as int + k), b + i) is Some);
        assert(base(g) + (b + i) == row(z, i));
    }
    permutation_sound(ch, t, z);
    assert(z + 7 - 2 == base(g) + (b + 5) && z + 7 - 1 == base(g) + (b + 6) && z + 7 == base(g) + (b + 7));
    assert(ch.mid(around(t, z + 7)) == vals(t, base, r));
}
/// C10: the words a batch returns are the permutation of those it is given, whatever is in the advice cells
pub proof fn batch_forced<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, base: spec_fn(int) -> int, c: Circuit<F>, d: Circuit<F>, ss: States<F>, r: Seq<States<F>>, l: int, n: int, k: int, j: int)
    requires ch.wf(), l >= 1, n == n_pieces(ss.len() as int, l), batch(ch, c, d, ss, r, l, n), all_obeyed(t, base, d.links), 0 <= k < n, 0 <= j < piece_of(ss, l, k).len(),
        ({ let g = c.regions.len() + k; (forall|i: int| 0 <= i < 8 ==> ch.own(#[trigger] around(t, base(g) + 8 * j + i))) && marks_ok(ch, t, base(g) + 8 * j) && fixed_placed(t, base(g), d.regions[g]) })
    ensures r[k].len() == piece_of(ss, l, k).len(), piece_of(ss, l, k)[j] == ss[k * l + j], vals(t, base, r[k][j]@) == perm3(vals(t, base, ss[k * l + j]@), 65)
{
    let (g0, g, cs) = (c.regions.len() as int, c.regions.len() + k, piece_of(ss, l, k));
    chunk_size(ss, l, k);
    assert(k * l >= 0) by (nonlinear_arith) requires k >= 0, l >= 1;
    split(t, base, c.links, batch_links(ch, g0, ss, l, n));
    batch_obeyed(ch, t, base, g0, ss, l, n, k);
    chunk_obeyed(ch, t, base, g, cs, cs.len() as int, j);
    let m = d.regions[g];
    let rk = r[k];
    assert(g == g0 + k);
    assert(chunk_out(ch, g0 + k, cs, rk));
    assert(chunk_cells(ch, m, cs));
    assert(left(ch, g, 8 * j, wst(cs[j]@), r[k][j]@));
    assert forall|i: int, y: int| 0 <= y < 8 implies #[trigger] m(Col::Fixed(i), 8 * j + y) == ch.cell_of(wst(cs[j]@), Col::Fixed(i), y) by {
        assert((8 * j + y) / 8 == j && (8 * j + y) % 8 == y);
        assert(m(Col::Fixed(i), 8 * j + y) == filled(ch, cs, cs.len() as int)(Col::Fixed(i), 8 * j + y));
    }
    block_forced(ch, t, base, g, 8 * j, cs[j]@, wst(cs[j]@), m, r[k][j]@);
}
/// C10: the same for one permutation
pub proof fn permute_forced<F: CachedConstants>(ch: SeptidonChip, t: Filled<F>, base: spec_fn(int) -> int, c: Circuit<F>, d: Circuit<F>, s: Seq<StateWord<F>>, r: Seq<StateWord<F>>)
    requires ch.wf(), permuted(ch, c, d, s, r), all_obeyed(t, base, d.links),
        ({ let g = c.regions.len() as int; (forall|i: int| 0 <= i < 8 ==> ch.own(#[trigger] around(t, base(g) + 0 + i))) && marks_ok(ch, t, base(g)) && fixed_placed(t, base(g), d.regions[g]) })
    ensures vals(t, base, r) == perm3(vals(t, base, s), 65)
{
    let g = c.regions.len() as int;
    let m = d.regions[g];
    split(t, base, c.links, entered(ch, g, 0, s));
    assert(m == d.regions.last());
    assert forall|i: int, y: int| 0 <= y < 8 implies #[trigger] m(Col::Fixed(i), 0 + y) == ch.cell_of(wst(s), Col::Fixed(i), y) by { let x = Col::Fixed(i); assert(m(x, y) == (if ch.wit(wst(s), 0)(x, y) is Some { ch.wit(wst(s), 0)(x, y) } else { blank::<F>()(x, y) })); }
    block_forced(ch, t, base, g, 0, s, wst(s), m, r);
}
