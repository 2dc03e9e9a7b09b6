// ---- C15, C16: what loading places
/// the rows of a piece of a padded table
pub type Quad<'a, F> = ((Option<&'a [F; 2]>, Option<&'a u64>), (Option<&'a F>, Option<&'a F>));
/// pieces cut the requests where entries begin, without a gap
pub open spec fn pieces<'a, F: Field>(d: Seq<Quad<'a, F>>, out: Seq<&[Quad<'a, F>]>, r: Seq<Req<F>>, st: int, cuts: Seq<int>) -> bool {
    &&& cuts.len() == out.len() + 1 && cuts[0] == 0
    &&& forall|k: int| 0 <= k < out.len() ==> cut(r, st, #[trigger] cuts[k], cuts[k + 1])
    &&& forall|k: int| 0 <= k < out.len() ==> (#[trigger] out[k])@ == d.subrange(cuts[k], cuts[k + 1])
}
/// regions first, first + 1, .. one under the other are the rows 0, 1, .. of m; region first + k begins at row starts[k]
pub open spec fn stacked<F>(regs: Seq<Cells<F>>, first: int, starts: Seq<int>, m: Cells<F>) -> bool {
    let n = starts.len() - 1;
    &&& n >= 1 && starts[0] == 0 && first >= 0 && first + n <= regs.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] starts[k] < starts[k + 1]
    &&& forall|k: int, c: Cell, o: int| 0 <= k < n && !(0 <= o < starts[k + 1] - starts[k]) ==> (#[trigger] regs[first + k](c, o)) is None
    &&& forall|k: int, c: Cell, o: int| 0 <= k < n && starts[k] <= o < starts[k + 1] ==> #[trigger] m(c, o) == #[trigger] regs[first + k](c, o - starts[k])
    &&& forall|c: Cell, o: int| !(0 <= o < starts[n]) ==> (#[trigger] m(c, o)) is None
}
/// the words of row 1 + i of the stack
pub open spec fn handed_at<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, x: [PC::Word; 3], y: [PC::Word; 3], rq: Seq<Req<F>>, st: int, i: int, starts: Seq<int>, first: int) -> bool {
    exists|k: int| 0 <= k < starts.len() - 1 && #[trigger] starts[k] <= 1 + i < starts[k + 1] && cfg.hands_over(x, y, rq, st, i, first + k, 1 + i - starts[k])
}
/// the permutations asked for: x[i] to fin[i], for the first n
pub open spec fn asked<F, W>(x: Seq<[W; 3]>, fin: Seq<[W; 3]>, n: nat) -> Seq<(Seq<At>, Seq<At>)> { Seq::new(n, |i: int| (places::<F, _>(x[i]@), places::<F, _>(fin[i]@))) }
/// the t-th copy constraint: word t % 3 of permutation t / 3
pub open spec fn tie<F, W>(y: Seq<[W; 3]>, fin: Seq<[W; 3]>, t: int) -> Set<At> { tied(places::<F, W>(y[t / 3]@)[t % 3], places::<F, W>(fin[t / 3]@)[t % 3]) }
/// from c0 to c1: the range table, the head row and the requests below it, each row bound to its permutation
pub open spec fn lays<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, c0: Circuit<F>, c1: Circuit<F>, rq: Seq<Req<F>>, st: int,
    starts: Seq<int>, m1: Cells<F>, m: Cells<F>, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>, fin: Seq<[PC::Word; 3]>) -> bool {
    &&& forall|k: TableColumn, o: int| #[trigger] (c1.table)(k, o) == (if k == cfg.range() && 0 <= o <= st { Some(fnat::<F>((o * 0x1_0000_0000_0000_0000) as nat)) } else { (c0.table)(k, o) })
    &&& stacked(c1.regions, c0.regions.len() as int, starts, m) && starts.last() == 1 + rq.len()
    &&& cfg.head(blank::<F>(), m1) && cfg.filled_in(m1, m, rq, st, 1, true)
    &&& x.len() == rq.len() && y.len() == rq.len() && fin.len() == rq.len()
    &&& forall|i: int| 0 <= i < rq.len() ==> handed_at(cfg, #[trigger] x[i], y[i], rq, st, i, starts, c0.regions.len() as int)
    &&& c1.perms == c0.perms + asked::<F, _>(x, fin, rq.len())
    &&& c1.links == c0.links + Seq::new(3 * rq.len(), |t: int| tie::<F, _>(y, fin, t))
}
pub open spec fn loaded<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, c0: Circuit<F>, c1: Circuit<F>, rq: Seq<Req<F>>, st: int) -> bool {
    exists|starts: Seq<int>, m1: Cells<F>, m: Cells<F>, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>, fin: Seq<[PC::Word; 3]>| #[trigger] lays(cfg, c0, c1, rq, st, starts, m1, m, x, y, fin)
}
/// region g holds piece k
#[verifier::opaque]
pub open spec fn piece_in<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Cells<F>, w: Seq<(Vec<[PC::Word; 3]>, Vec<[PC::Word; 3]>)>, rq: Seq<Req<F>>, st: int, cuts: Seq<int>, k: int, g: int) -> bool {
    let p = rq.subrange(cuts[k], cuts[k + 1]);
    cut(rq, st, cuts[k], cuts[k + 1]) && cfg.filled_in(blank::<F>(), r, p, st, 0, k == cuts.len() - 2) && cfg.handed(w[k].0@, w[k].1@, p, st, 0, g)
}
/// row i belongs to one of the first k regions
pub open spec fn lies(starts: Seq<int>, k: int, i: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] starts[j] <= i < starts[j + 1] }
/// the regions from number first on, k of them, one under the other
pub open spec fn unstack<F>(regs: Seq<Cells<F>>, first: int, starts: Seq<int>, k: int) -> Cells<F> decreases k {
    if k <= 0 { blank::<F>() } else { let m = unstack(regs, first, starts, k - 1); |c: Cell, o: int| if starts[k - 1] <= o { regs[first + k - 1](c, o - starts[k - 1]) } else { m(c, o) } }
}
proof fn unstack_is<F>(regs: Seq<Cells<F>>, first: int, starts: Seq<int>, k: int)
    requires 0 <= k <= starts.len() - 1, starts[0] == 0, forall|k: int| 0 <= k < starts.len() - 1 ==> #[trigger] starts[k] < starts[k + 1],
        forall|k: int, c: Cell, o: int| 0 <= k < starts.len() - 1 && !(0 <= o < starts[k + 1] - starts[k]) ==> (#[trigger] regs[first + k](c, o)) is None
    ensures ({ let m = unstack(regs, first, starts, k);
        &&& forall|j: int, c: Cell, o: int| 0 <= j < k && starts[j] <= o < starts[j + 1] ==> #[trigger] m(c, o) == #[trigger] regs[first + j](c, o - starts[j])
        &&& forall|c: Cell, o: int| !(0 <= o < starts[k]) ==> (#[trigger] m(c, o)) is None
        &&& forall|j: int| 0 <= j <= k ==> starts[j] <= starts[k] && starts[j] >= 0
        &&& forall|i: int| 0 <= i < starts[k] ==> #[trigger] lies(starts, k, i)
    })
    decreases k
{
    if k > 0 {
        unstack_is(regs, first, starts, k - 1);
        let (m, m0) = (unstack(regs, first, starts, k), unstack(regs, first, starts, k - 1));
        assert(starts[k - 1] < starts[k]);
        assert forall|j: int, c: Cell, o: int| 0 <= j < k && starts[j] <= o < starts[j + 1] implies #[trigger] m(c, o) == #[trigger] regs[first + j](c, o - starts[j]) by {
            if j < k - 1 { assert(starts[j + 1] <= starts[k - 1]); assert(m(c, o) == m0(c, o)); } else { assert(regs[first + j] == regs[first + k - 1]); }
        }
        assert forall|c: Cell, o: int| !(0 <= o < starts[k]) implies (#[trigger] m(c, o)) is None by {
            if o < 0 { assert(m(c, o) == m0(c, o)); } else { assert(regs[first + (k - 1)](c, o - starts[k - 1]) is None); }
        }
        assert forall|i: int| 0 <= i < starts[k] implies #[trigger] lies(starts, k, i) by {
            assert(i < starts[k - 1] ==> lies(starts, k - 1, i));
            if i < starts[k - 1] { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] starts[j] <= i < starts[j + 1]; assert(starts[j] <= i < starts[j + 1]); } else { assert(starts[k - 1] <= i < starts[(k - 1) + 1]); }
        }
    }
}
impl<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>> SpongeConfig<F, PC> {
    proof fn filled_moved(&self, m: Cells<F>, n: Cells<F>, r: Seq<Req<F>>, st: int, i: int, o: int, p: int)
        requires self.filled(m, r, st, i, o), forall|c: Cell| #[trigger] n(c, p) == m(c, o) ensures self.filled(n, r, st, i, p)
    { reveal(SpongeConfig::holds_row); }
    proof fn hands_cut(&self, x: [PC::Word; 3], y: [PC::Word; 3], r: Seq<Req<F>>, st: int, a: int, e: int, i: int, g: int, o: int)
        requires cut(r, st, a, e), 0 <= i < e - a, self.hands_over(x, y, r.subrange(a, e), st, i, g, o) ensures self.hands_over(x, y, r, st, a + i, g, o)
    { sin_cut(r, st, a, e, i); }
    proof fn head_is_row_0(&self, m: Cells<F>)
        requires self.head(blank::<F>(), m) ensures forall|c: Cell, o: int| o != 0 ==> (#[trigger] m(c, o)) is None
    {}
    proof fn apart_is(&self)
        requires self.wf() ensures self.index_cell() != self.custom_cell(), !self.mine(self.custom_cell()), self.mine(self.index_cell())
    {}
}
/// one region: the head row and the requests below it
proof fn one_region<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, regs: Seq<Cells<F>>, first: int, m1: Cells<F>, rq: Seq<Req<F>>, st: int, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>)
    requires cfg.wf(), 0 <= first < regs.len(), cfg.head(blank::<F>(), m1), cfg.filled_in(m1, regs[first], rq, st, 1, true), cfg.handed(x, y, rq, st, 1, first), rq.len() >= 1
    ensures x.len() == rq.len(), y.len() == rq.len(), stacked(regs, first, seq![0int, (1 + rq.len()) as int], regs[first]), forall|i: int| 0 <= i < rq.len() ==> handed_at(cfg, #[trigger] x[i], y[i], rq, st, i, seq![0int, (1 + rq.len()) as int], first)
{
    let starts = seq![0int, (1 + rq.len()) as int];
    cfg.head_is_row_0(m1);
    assert forall|i: int| 0 <= i < rq.len() implies handed_at(cfg, #[trigger] x[i], y[i], rq, st, i, starts, first) by {
        assert(cfg.hands_over(x[i], y[i], rq, st, i, first, 1 + i));
        assert(starts[0] <= 1 + i < starts[0int + 1]);
    }
}
proof fn piece_facts<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Cells<F>, w: Seq<(Vec<[PC::Word; 3]>, Vec<[PC::Word; 3]>)>, rq: Seq<Req<F>>, st: int, cuts: Seq<int>, k: int, g: int, m: Cells<F>)
    requires cfg.wf(), 0 <= k < cuts.len() - 1, cuts.last() == rq.len(), piece_in(cfg, r, w, rq, st, cuts, k, g), forall|c: Cell, o: int| 0 <= o < cuts[k + 1] - cuts[k] ==> #[trigger] m(c, 1 + cuts[k] + o) == r(c, o)
    ensures forall|i: int| cuts[k] <= i < cuts[k + 1] ==> #[trigger] cfg.filled(m, rq, st, i, 1 + i),
        forall|i: int| cuts[k] <= i < cuts[k + 1] && (#[trigger] rq[stop(rq, st, i)]).ctrl > st ==> m(cfg.index_cell(), 1 + i) is None,
        k == cuts.len() - 2 ==> m(cfg.custom_cell(), rq.len() as int) == Some(fone::<F>()),
        forall|c: Cell, o: int| 1 + cuts[k] <= o < 1 + cuts[k + 1] ==> (#[trigger] m(c, o)) is None || cfg.mine(c) || c == cfg.custom_cell() && o == rq.len(),
        forall|i: int| cuts[k] <= i < cuts[k + 1] && (#[trigger] rq[i]).check is Some ==> rq[i].check == Some(sout(rq, st, i)[0]),
        0 <= cuts[k] < cuts[k + 1] <= rq.len(),
{
    reveal(piece_in);
    let (a, e) = (cuts[k], cuts[k + 1]);
    let p = rq.subrange(a, e);
    assert forall|i: int| a <= i < e implies #[trigger] cfg.filled(m, rq, st, i, 1 + i) by {
        assert(cfg.filled(r, p, st, i - a, 0 + (i - a)));
        filled_cut(cfg, r, rq, st, a, e, i - a, i - a);
        assert forall|c: Cell| #[trigger] m(c, 1 + i) == r(c, i - a) by { assert(m(c, 1 + a + (i - a)) == r(c, i - a)); }
        cfg.filled_moved(r, m, rq, st, i, i - a, 1 + i);
    }
    assert forall|i: int| a <= i < e && (#[trigger] rq[stop(rq, st, i)]).ctrl > st implies m(cfg.index_cell(), 1 + i) is None by {
        stop_cut(rq, st, a, e, i - a);
        assert(p[stop(p, st, i - a)] == rq[stop(rq, st, i)]);
        assert(m(cfg.index_cell(), 1 + a + (i - a)) == r(cfg.index_cell(), i - a));
        assert(r(cfg.index_cell(), 0 + (i - a)) == blank::<F>()(cfg.index_cell(), 0 + (i - a)));
    }
    if k == cuts.len() - 2 { assert(m(cfg.custom_cell(), 1 + a + (e - a - 1)) == r(cfg.custom_cell(), e - a - 1)); }
    assert forall|c: Cell, o: int| 1 + a <= o < 1 + e implies (#[trigger] m(c, o)) is None || cfg.mine(c) || c == cfg.custom_cell() && o == rq.len() by {
        assert(m(c, 1 + a + (o - 1 - a)) == r(c, o - 1 - a));
    }
    assert forall|i: int| a <= i < e && (#[trigger] rq[i]).check is Some implies rq[i].check == Some(sout(rq, st, i)[0]) by {
        assert(p[i - a] == rq[i]);
        sin_cut(rq, st, a, e, i - a);
    }
}
/// the head row in one region and the pieces in the regions after it
proof fn many_regions<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, regs: Seq<Cells<F>>, first: int, rq: Seq<Req<F>>, st: int, cuts: Seq<int>, starts: Seq<int>, w: Seq<(Vec<[PC::Word; 3]>, Vec<[PC::Word; 3]>)>)
    requires cfg.wf(), first >= 0, regs.len() == first + cuts.len(), cuts.len() >= 2, cuts[0] == 0, cuts.last() == rq.len(), w.len() == cuts.len() - 1, starts == Seq::new(cuts.len() + 1, |k: int| if k == 0 { 0 } else { 1 + cuts[k - 1] }),
        cfg.head(blank::<F>(), regs[first]), forall|k: int| 0 <= k < w.len() ==> #[trigger] piece_in(cfg, regs[first + 1 + k], w, rq, st, cuts, k, first + 1 + k)
    ensures ({ let m = unstack(regs, first, starts, starts.len() - 1); stacked(regs, first, starts, m) && cfg.filled_in(regs[first], m, rq, st, 1, true) })
{
    let n = starts.len() - 1;
    let m = unstack(regs, first, starts, n);
    let m1 = regs[first];
    cfg.head_is_row_0(m1);
    cfg.apart_is();
    assert forall|k: int| 0 <= k < n implies #[trigger] starts[k] < starts[k + 1] by {
        if k > 0 { reveal(piece_in); assert(piece_in(cfg, regs[first + 1 + (k - 1)], w, rq, st, cuts, k - 1, first + 1 + (k - 1))); }
    }
    assert forall|k: int, c: Cell, o: int| 0 <= k < n && !(0 <= o < starts[k + 1] - starts[k]) implies (#[trigger] regs[first + k](c, o)) is None by {
        if k > 0 {
            reveal(piece_in);
            assert(piece_in(cfg, regs[first + 1 + (k - 1)], w, rq, st, cuts, k - 1, first + 1 + (k - 1)));
            assert(regs[first + 1 + (k - 1)] == regs[first + k]);
        } else { assert(regs[first + k] == m1); assert(m1(c, o) is None); }
    }
    unstack_is(regs, first, starts, n);
    assert forall|k: int| 0 <= k < w.len() implies forall|c: Cell, o: int| 0 <= o < cuts[k + 1] - cuts[k] ==> #[trigger] m(c, 1 + #[trigger] cuts[k] + o) == regs[first + 1 + k](c, o) by {
        assert forall|c: Cell, o: int| 0 <= o < cuts[k + 1] - cuts[k] implies #[trigger] m(c, 1 + cuts[k] + o) == regs[first + 1 + k](c, o) by {
            let q = k + 1;
            assert(starts[q] == 1 + cuts[k] && starts[q + 1] == 1 + cuts[k + 1]);
            assert(m(c, starts[q] + o) == regs[first + q](c, starts[q] + o - starts[q]));
        }
    }
    assert forall|i: int| 0 <= i < rq.len() implies #[trigger] cfg.filled(m, rq, st, i, 1 + i) by {
        let k = piece_of(starts, n, i);
        piece_facts(cfg, regs[first + 1 + k], w, rq, st, cuts, k, first + 1 + k, m);
    }
    assert forall|i: int| 0 <= i < rq.len() && (#[trigger] rq[stop(rq, st, i)]).ctrl > st implies m(cfg.index_cell(), 1 + i) == m1(cfg.index_cell(), 1 + i) by {
        let k = piece_of(starts, n, i);
        piece_facts(cfg, regs[first + 1 + k], w, rq, st, cuts, k, first + 1 + k, m);
        assert(m1(cfg.index_cell(), 1 + i) is None);
    }
    let l = w.len() - 1;
    piece_facts(cfg, regs[first + 1 + l], w, rq, st, cuts, l, first + 1 + l, m);
    assert forall|c: Cell, o: int| #[trigger] m(c, o) == m1(c, o) || 1 <= o < 1 + rq.len() && cfg.mine(c) || c == cfg.custom_cell() && o == 1 + rq.len() - 1 by {
        if o == 0 { assert(starts[0] <= 0 < starts[0int + 1]); assert(m(c, o) == regs[first + 0](c, o - starts[0])); }
        else if 1 <= o < 1 + rq.len() {
            let k = piece_of(starts, n, o - 1);
            piece_facts(cfg, regs[first + 1 + k], w, rq, st, cuts, k, first + 1 + k, m);
            assert(m1(c, o) is None);
        } else { assert(m1(c, o) is None); }
    }
    assert forall|i: int| 0 <= i < rq.len() && (#[trigger] rq[i]).check is Some implies rq[i].check == Some(sout(rq, st, i)[0]) by {
        let k = piece_of(starts, n, i);
        piece_facts(cfg, regs[first + 1 + k], w, rq, st, cuts, k, first + 1 + k, m);
    }
}
/// the piece that request i is in
proof fn piece_of(starts: Seq<int>, n: int, i: int) -> (k: int)
    requires starts.len() == n + 1, n >= 2, starts[0] == 0, starts[1] == 1, forall|i: int| 0 <= i < starts[n] ==> #[trigger] lies(starts, n, i), 0 <= i, 1 + i < starts[n]
    ensures 0 <= k < n - 1, starts[k + 1] <= 1 + i < starts[k + 2]
{
    assert(lies(starts, n, 1 + i));
    let j = choose|j: int| 0 <= j < n && #[trigger] starts[j] <= 1 + i < starts[j + 1];
    j - 1
}
/// the words of piece k
proof fn piece_words<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Cells<F>, w: Seq<(Vec<[PC::Word; 3]>, Vec<[PC::Word; 3]>)>, rq: Seq<Req<F>>, st: int, cuts: Seq<int>, k: int, first: int, starts: Seq<int>)
    requires 0 <= k < cuts.len() - 1, piece_in(cfg, r, w, rq, st, cuts, k, first + 1 + k), starts == Seq::new(cuts.len() + 1, |k: int| if k == 0 { 0 } else { 1 + cuts[k - 1] })
    ensures ({ let (x, y) = (w[k].0@, w[k].1@); x.len() == cuts[k + 1] - cuts[k] && y.len() == x.len() && forall|j: int| 0 <= j < x.len() ==> handed_at(cfg, #[trigger] x[j], y[j], rq, st, cuts[k] + j, starts, first) }), cuts[k] < cuts[k + 1]
{
    reveal(piece_in);
    let (x, y) = (w[k].0@, w[k].1@);
    let (a, e) = (cuts[k], cuts[k + 1]);
    let p = rq.subrange(a, e);
    assert forall|j: int| 0 <= j < x.len() implies handed_at(cfg, #[trigger] x[j], y[j], rq, st, a + j, starts, first) by {
        assert(cfg.hands_over(x[j], y[j], p, st, j, first + 1 + k, 0 + j));
        cfg.hands_cut(x[j], y[j], rq, st, a, e, j, first + 1 + k, j);
        let q = k + 1;
        assert(starts[q] == 1 + a && starts[q + 1] == 1 + e);
        assert(starts[q] <= 1 + (a + j) < starts[q + 1]);
        assert(cfg.hands_over(x[j], y[j], rq, st, a + j, first + q, 1 + (a + j) - starts[q]));
    }
}
proof fn stacked_more<F>(regs: Seq<Cells<F>>, more: Seq<Cells<F>>, first: int, starts: Seq<int>, m: Cells<F>)
    requires stacked(regs, first, starts, m), regs.len() <= more.len(), forall|i: int| 0 <= i < regs.len() ==> #[trigger] more[i] == regs[i] ensures stacked(more, first, starts, m)
{
    assert forall|k: int| 0 <= k < starts.len() - 1 implies #[trigger] more[first + k] == regs[first + k] by {}
}
// ---- C15: a loaded circuit is accepted
/// the table the lookup reads: the cells assigned, and no other value
pub open spec fn tabled<F>(tb: Tables<F>, t: spec_fn(TableColumn, int) -> Option<F>, k: TableColumn, st: int) -> bool {
    &&& forall|j: int| 0 <= j <= st ==> #[trigger] t(k, j) == Some(tb(k, j)) && is_row(j)
    &&& forall|r: int| #[trigger] is_row(r) ==> exists|j: int| 0 <= j <= st && t(k, j) == Some(tb(k, r)) && #[trigger] is_row(j)
}
/// the values of the words handed to and taken from the permutation
pub open spec fn values<F, W>(x: [W; 3]) -> Seq<F> { seq![word::<F, W>(x@[0]).v@, word::<F, W>(x@[1]).v@, word::<F, W>(x@[2]).v@] }
/// whatever load places, its rows one under the other satisfy every constraint of configure_sub at every row, and the
/// two sides of every copy constraint agree when the permutation circuit assigns the permutation of what it is given
pub proof fn loaded_is_accepted<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, c0: Circuit<F>, c1: Circuit<F>, rq: Seq<Req<F>>, tb: Tables<F>, st: usize,
    starts: Seq<int>, m1: Cells<F>, m: Cells<F>, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>, fin: Seq<[PC::Word; 3]>)
    requires cfg.wf(), cfg.steps() == st, lays(cfg, c0, c1, rq, st as int, starts, m1, m, x, y, fin), tabled(tb, c1.table, cfg.range(), st as int),
        chained(rq, st as int), padded_out(rq), modulus::<F>() > 0x1_0000_0000_0000_0000_0000_0000_0000_0000
    ensures forall|i: int| #[trigger] cfg.own(shift(full(m), i), tb),
        forall|i: int| 1 <= i <= rq.len() ==> (#[trigger] cfg.row(full(m), i)).q == fone::<F>() && permuted(|s: Seq<F>| F::s_perm(s), cfg.row(full(m), i)),
        cfg.row(full(m), 0).custom == fone::<F>(), cfg.row(full(m), rq.len() as int).custom == fone::<F>(),
        forall|i: int| 0 <= i < rq.len() ==> F::s_perm(values::<F, _>(#[trigger] x[i])) == values::<F, _>(y[i]),
{
    let t = table_rows(tb, cfg.range());
    assert forall|r: int| #[trigger] is_row(r) implies in_range(t(r), st as nat) by {
        let j = choose|j: int| 0 <= j <= st && (c1.table)(cfg.range(), j) == Some(tb(cfg.range(), r)) && #[trigger] is_row(j);
        assert(t(r) == fnat::<F>((j as nat) * unit()));
    }
    assert forall|j: nat| j <= st implies #[trigger] holds(t, j) by {
        let i = j as int;
        assert((c1.table)(cfg.range(), i) == Some(tb(cfg.range(), i)) && is_row(i));
        assert(t(i) == fnat::<F>(j * unit()));
    }
    assert(ranges(t, st as nat));
    serial_is_accepted(cfg, rq, m1, m, tb, st);
    assert forall|i: int| 0 <= i < rq.len() implies F::s_perm(values::<F, _>(#[trigger] x[i])) == values::<F, _>(y[i]) by {
        assert(handed_at(cfg, x[i], y[i], rq, st as int, i, starts, c0.regions.len() as int));
        assert(cfg.filled(m, rq, st as int, i, 1 + i));
        reveal(SpongeConfig::holds_row);
        assert(values::<F, _>(x[i]) =~= sin(rq, st as int, i));
        assert(values::<F, _>(y[i]) =~= sout(rq, st as int, i));
    }
}
// ---- C16: whatever the regions, the rows are the same
impl<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>> SpongeConfig<F, PC> {
    proof fn one_row(&self, m: Cells<F>, n: Cells<F>, r: Seq<Req<F>>, st: int, i: int, o: int)
        requires self.holds_row(m, r, st, i, o), self.holds_row(n, r, st, i, o) ensures forall|c: Cell| self.mine(c) && c != self.index_cell() ==> #[trigger] m(c, o) == n(c, o)
    {
        reveal(SpongeConfig::holds_row);
        assert forall|c: Cell| self.mine(c) && c != self.index_cell() implies #[trigger] m(c, o) == n(c, o) by {
            if exists|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table@[k]).c() { let k = choose|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table@[k]).c(); assert(k == 1 || k == 2 || k == 3 || k == 4 || k == 5); }
            if exists|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table_aux@[k]).c() { let k = choose|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table_aux@[k]).c(); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5); }
        }
    }
    proof fn one_head(&self, m: Cells<F>, n: Cells<F>)
        requires self.head(blank::<F>(), m), self.head(blank::<F>(), n) ensures forall|c: Cell, o: int| #[trigger] m(c, o) == n(c, o)
    {
        assert forall|c: Cell, o: int| #[trigger] m(c, o) == n(c, o) by {
            if m(c, o) is None && n(c, o) is None {} else { assert(o == 0); assert(self.mine(c) && c != self.q_enable.c() || c == self.s_custom.c()); }
        }
    }
    /// the words are in the same columns of the same rows
    proof fn word_rows(&self, x: [PC::Word; 3], y: [PC::Word; 3], rq: Seq<Req<F>>, st: int, i: int, starts: Seq<int>, first: int)
        requires handed_at(*self, x, y, rq, st, i, starts, first)
        ensures words_on(*self, x, y, i, starts, first)
    {
        let k = choose|k: int| 0 <= k < starts.len() - 1 && #[trigger] starts[k] <= 1 + i < starts[k + 1] && self.hands_over(x, y, rq, st, i, first + k, 1 + i - starts[k]);
        assert(starts[k] <= 1 + i < starts[k + 1]);
        assert forall|j: int| 0 <= j < 3 implies on_row(#[trigger] places::<F, PC::Word>(x@)[j], self.in_cell(j), 1 + i, starts, first) by { assert(j == 0 || j == 1 || j == 2); }
        assert forall|j: int| 0 <= j < 3 implies on_row(#[trigger] places::<F, PC::Word>(y@)[j], self.out_cell(j), 1 + i, starts, first) by { assert(j == 0 || j == 1 || j == 2); }
    }
    pub closed spec fn in_cell(&self, j: int) -> Cell { self.hash_table_aux@[j].c() }
    pub closed spec fn out_cell(&self, j: int) -> Cell { if j == 0 { self.hash_table_aux@[5].c() } else { self.hash_table_aux@[2 + j].c() } }
}
/// a place in region first + k is column c, row o of the stack
pub open spec fn on_row(p: At, c: Cell, o: int, starts: Seq<int>, first: int) -> bool { exists|k: int| 0 <= k < starts.len() - 1 && p == (first + k, c, o - starts[k]) && #[trigger] starts[k] <= o < starts[k + 1] }
/// the words stand in the state columns of row 1 + i
pub open spec fn words_on<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, x: [PC::Word; 3], y: [PC::Word; 3], i: int, starts: Seq<int>, first: int) -> bool {
    &&& forall|j: int| 0 <= j < 3 ==> on_row(#[trigger] places::<F, PC::Word>(x@)[j], cfg.in_cell(j), 1 + i, starts, first)
    &&& forall|j: int| 0 <= j < 3 ==> on_row(#[trigger] places::<F, PC::Word>(y@)[j], cfg.out_cell(j), 1 + i, starts, first)
}
/// two ways of loading the same requests: the same cells with the same values, the same permutations and copies at the same places
pub proof fn same_circuit<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, a0: Circuit<F>, a1: Circuit<F>, b0: Circuit<F>, b1: Circuit<F>, rq: Seq<Req<F>>, st: int,
    s: Seq<int>, m1: Cells<F>, m: Cells<F>, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>, fin: Seq<[PC::Word; 3]>, t: Seq<int>, n1: Cells<F>, n: Cells<F>, u: Seq<[PC::Word; 3]>, v: Seq<[PC::Word; 3]>, gin: Seq<[PC::Word; 3]>)
    requires cfg.wf(), lays(cfg, a0, a1, rq, st, s, m1, m, x, y, fin), lays(cfg, b0, b1, rq, st, t, n1, n, u, v, gin)
    ensures forall|c: Cell, o: int| #[trigger] m(c, o) == n(c, o),
        a0.table == b0.table ==> forall|k: TableColumn, o: int| #[trigger] (a1.table)(k, o) == (b1.table)(k, o),
        a1.perms.len() - a0.perms.len() == b1.perms.len() - b0.perms.len(), a1.links.len() - a0.links.len() == b1.links.len() - b0.links.len(),
        forall|i: int| 0 <= i < rq.len() ==> words_on(cfg, #[trigger] x[i], y[i], i, s, a0.regions.len() as int),
        forall|i: int| 0 <= i < rq.len() ==> words_on(cfg, #[trigger] u[i], v[i], i, t, b0.regions.len() as int),
{
    cfg.one_head(m1, n1);
    cfg.apart_is();
    assert forall|c: Cell, o: int| #[trigger] m(c, o) == n(c, o) by {
        assert(m1(c, o) == n1(c, o));
        if 1 <= o < 1 + rq.len() && cfg.mine(c) {
            let i = o - 1;
            assert(cfg.filled(m, rq, st, i, 1 + i) && cfg.filled(n, rq, st, i, 1 + i));
            if c != cfg.index_cell() { cfg.one_row(m, n, rq, st, i, o); } else {
                assert(rq[stop(rq, st, i)].ctrl <= st || m(c, 1 + i) == m1(c, 1 + i));
            }
        }
    }
    assert forall|i: int| 0 <= i < rq.len() implies words_on(cfg, #[trigger] x[i], y[i], i, s, a0.regions.len() as int) by {
        assert(handed_at(cfg, x[i], y[i], rq, st, i, s, a0.regions.len() as int));
        cfg.word_rows(x[i], y[i], rq, st, i, s, a0.regions.len() as int);
    }
    assert forall|i: int| 0 <= i < rq.len() implies words_on(cfg, #[trigger] u[i], v[i], i, t, b0.regions.len() as int) by {
        assert(handed_at(cfg, u[i], v[i], rq, st, i, t, b0.regions.len() as int));
        cfg.word_rows(u[i], v[i], rq, st, i, t, b0.regions.len() as int);
    }
}
