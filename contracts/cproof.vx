// ---- C15: a filled table satisfies the constraints, and its entries are the digests of the requests
pub open spec fn full<F: Field>(m: Cells<F>) -> spec_fn(Cell, int) -> F { |c: Cell, o: int| match m(c, o) { Some(v) => v, None => fzero::<F>() } }
/// within a message the control number goes down by step and no domain is given (what the table builder makes, C17)
pub open spec fn chained<F: Field>(r: Seq<Req<F>>, step: int) -> bool {
    forall|i: int| 0 <= i < r.len() && !(#[trigger] opens(r, step, i)) ==> r[i - 1].ctrl == r[i].ctrl + step && r[i].dom == fzero::<F>()
}
/// the capacity leaves a row that is not used
pub open spec fn padded_out<F: Field>(r: Seq<Req<F>>) -> bool { r.len() >= 1 && r.last().w0 == fzero::<F>() && r.last().w1 == fzero::<F>() && r.last().ctrl == 0 }
pub open spec fn table_rows<F>(tb: Tables<F>, k: TableColumn) -> spec_fn(int) -> F { |i: int| tb(k, i) }
pub open spec fn holds<F>(t: spec_fn(int) -> F, j: nat) -> bool { exists|r: int| #[trigger] is_row(r) && t(r) == fnat::<F>(j * unit()) }
/// the range column holds 0, 2^64, .. step * 2^64
pub open spec fn ranges<F>(t: spec_fn(int) -> F, step: nat) -> bool {
    &&& forall|r: int| #[trigger] is_row(r) ==> in_range(t(r), step)
    &&& forall|j: nat| j <= step ==> #[trigger] holds(t, j)
}
proof fn flag_facts<F: Field>(c: u64)
    requires modulus::<F>() > 0x1_0000_0000_0000_0000_0000_0000_0000_0000
    ensures flag::<F>(c) == fzero::<F>() <==> c == 0, flag::<F>(c) == fnat::<F>((c as nat) * unit()), flag::<F>(c) != fzero::<F>() ==> fmul(flag::<F>(c), finv(flag::<F>(c))) == fone::<F>()
{
    assert((c as nat) * unit() < 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (nonlinear_arith) requires c <= u64::MAX, unit() == 0x1_0000_0000_0000_0000;
    if c != 0 {
        assert((c as nat) * unit() > 0) by (nonlinear_arith) requires c > 0, unit() > 0;
        if flag::<F>(c) == fzero::<F>() { fnat_inj::<F>((c as nat) * unit(), 0); }
        f_inv(flag::<F>(c));
    }
}
/// one row of a filled table and the row before it
proof fn row_is_linked<F: Hashable>(r: Seq<Req<F>>, st: int, i: int, p: Row<F>, x: Row<F>)
    requires chained(r, st), padded_out(r), 0 <= i < r.len(), 0 <= st <= usize::MAX, modulus::<F>() > 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        x.q == fone::<F>(), x.custom == (if i == r.len() - 1 { fone::<F>() } else { fzero::<F>() }), x.w0 == r[i].w0, x.w1 == r[i].w1, x.ctrl == flag::<F>(r[i].ctrl), x.dom == r[i].dom,
        x.mark == (if opens(r, st, i) { fone::<F>() } else { fzero::<F>() }), x.s == (if opens(r, st, i) { fzero::<F>() } else { fone::<F>() }),
        x.caux == (if flag::<F>(r[i].ctrl) == fzero::<F>() { fzero::<F>() } else { finv(flag::<F>(r[i].ctrl)) }),
        sin(r, st, i).len() == 3, x.in0 == sin(r, st, i)[0], x.in1 == sin(r, st, i)[1], x.in2 == sin(r, st, i)[2],
        i == 0 ==> p.ctrl == fzero::<F>() && p.out0 == p.index,
        i > 0 ==> p.ctrl == flag::<F>(r[i - 1].ctrl) && p.out0 == sout(r, st, i - 1)[0] && p.out1 == sout(r, st, i - 1)[1] && p.out2 == sout(r, st, i - 1)[2],
        r[stop(r, st, i)].ctrl <= st ==> x.index == sout(r, st, stop(r, st, i))[0],
        i > 0 && r[stop(r, st, i - 1)].ctrl <= st ==> p.index == sout(r, st, stop(r, st, i - 1))[0],
    ensures linked(p, x, fnat::<F>((st * 0x1_0000_0000_0000_0000) as nat)), in_range(fmul(x.mark, p.ctrl), st as nat)
{
    broadcast use laws;
    flag_facts::<F>(r[i].ctrl);
    if i > 0 { flag_facts::<F>(r[i - 1].ctrl); }
    assert(stop(r, st, i) >= i && stop(r, st, i) < r.len() && r[stop(r, st, i)].ctrl <= st) by { stop_ends(r, st, i); }
    if opens(r, st, i) {
        if i > 0 {
            stop_is(r, st, i - 1, i - 1);
            assert(p.index == p.out0);
            let j = r[i - 1].ctrl as nat;
            assert(fmul(x.mark, p.ctrl) == fnat::<F>(j * unit()));
        } else {
            assert(fmul(x.mark, p.ctrl) == fzero::<F>());
            assert(fzero::<F>() == fnat::<F>(0nat * unit()));
        }
        assert(x.in0 == fadd(x.ctrl, x.dom) && x.in1 == x.w0 && x.in2 == x.w1);
    } else {
        assert(r[i - 1].ctrl == r[i].ctrl + st);
        assert(stop(r, st, i - 1) == stop(r, st, i));
        fnat_add::<F>((r[i].ctrl as nat) * unit(), (st as nat) * unit());
        assert((r[i].ctrl as nat) * unit() + (st as nat) * unit() == (r[i - 1].ctrl as nat) * unit()) by (nonlinear_arith) requires r[i - 1].ctrl == r[i].ctrl + st, st >= 0;
        assert(fmul(x.mark, p.ctrl) == fzero::<F>());
        assert(fzero::<F>() == fnat::<F>(0nat * unit()));
        assert(x.dom == fzero::<F>());
    }
}
proof fn stop_ends<F: Field>(r: Seq<Req<F>>, step: int, i: int)
    requires padded_out(r), 0 <= i < r.len(), step >= 0 ensures i <= stop(r, step, i) < r.len(), r[stop(r, step, i)].ctrl <= step
    decreases r.len() - i
{ if i + 1 >= r.len() || r[i].ctrl <= step { } else { stop_ends(r, step, i + 1); } }
proof fn blank_row<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Seq<Req<F>>, m1: Cells<F>, m: Cells<F>, st: usize, i: int)
    requires cfg.wf(), cfg.head(|c: Cell, o: int| None, m1), cfg.filled_in(m1, m, r, st as int, 1, true), padded_out(r),
        !(1 <= i <= r.len())
    ensures ({ let x = cfg.row(full(m), i); x.q == fzero::<F>() && x.w0 == fzero::<F>() && x.w1 == fzero::<F>() && x.ctrl == fzero::<F>() && x.mark == fzero::<F>() && x.out0 == fzero::<F>() && x.index == fzero::<F>() }),
        i == 0 ==> cfg.row(full(m), i).custom == fone::<F>()
{
    cfg.all_mine();
}
proof fn body_row<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Seq<Req<F>>, m1: Cells<F>, m: Cells<F>, st: usize, i: int)
    requires cfg.wf(), cfg.head(|c: Cell, o: int| None, m1), cfg.filled_in(m1, m, r, st as int, 1, true), padded_out(r),
        1 <= i <= r.len()
    ensures ({ let (x, p, j, st) = (cfg.row(full(m), i), cfg.row(full(m), i - 1), i - 1, st as int);
        &&& x.q == fone::<F>() && x.custom == (if j == r.len() - 1 { fone::<F>() } else { fzero::<F>() }) && x.w0 == r[j].w0 && x.w1 == r[j].w1 && x.ctrl == flag::<F>(r[j].ctrl) && x.dom == r[j].dom
        &&& x.mark == (if opens(r, st, j) { fone::<F>() } else { fzero::<F>() }) && x.s == (if opens(r, st, j) { fzero::<F>() } else { fone::<F>() })
        &&& x.caux == (if flag::<F>(r[j].ctrl) == fzero::<F>() { fzero::<F>() } else { finv(flag::<F>(r[j].ctrl)) })
        &&& sin(r, st, j).len() == 3 && x.in0 == sin(r, st, j)[0] && x.in1 == sin(r, st, j)[1] && x.in2 == sin(r, st, j)[2]
        &&& sout(r, st, j).len() == 3 && x.out0 == sout(r, st, j)[0] && x.out1 == sout(r, st, j)[1] && x.out2 == sout(r, st, j)[2]
        &&& x.index == sout(r, st, stop(r, st, j))[0]
        &&& j == 0 ==> p.ctrl == fzero::<F>() && p.out0 == p.index
        &&& j > 0 ==> p.ctrl == flag::<F>(r[j - 1].ctrl) && p.out0 == sout(r, st, j - 1)[0] && p.out1 == sout(r, st, j - 1)[1] && p.out2 == sout(r, st, j - 1)[2] && p.index == sout(r, st, stop(r, st, j - 1))[0]
    })
{
    reveal(SpongeConfig::holds_row);
    cfg.all_mine();
    assert(cfg.filled(m, r, st as int, i - 1, 1 + (i - 1)));
    stop_ends(r, st as int, i - 1);
    if i > 1 { assert(cfg.filled(m, r, st as int, i - 2, 1 + (i - 2))); stop_ends(r, st as int, i - 2); } else { blank_row(cfg, r, m1, m, st, 0); }
}
/// C15, one region: the head row and the requests from row 1 on satisfy every constraint of configure_sub, at every row
pub proof fn serial_is_accepted<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, r: Seq<Req<F>>, m1: Cells<F>, m: Cells<F>, tb: Tables<F>, st: usize)
    requires cfg.wf(), cfg.steps() == st, cfg.head(|c: Cell, o: int| None, m1), cfg.filled_in(m1, m, r, st as int, 1, true),
        chained(r, st as int), padded_out(r), ranges(table_rows(tb, cfg.range()), st as nat), modulus::<F>() > 0x1_0000_0000_0000_0000_0000_0000_0000_0000
    ensures forall|i: int| #[trigger] cfg.own(shift(full(m), i), tb),
        forall|i: int| 1 <= i <= r.len() ==> (#[trigger] cfg.row(full(m), i)).q == fone::<F>() && permuted(|s: Seq<F>| F::s_perm(s), cfg.row(full(m), i)),
        cfg.row(full(m), 0).custom == fone::<F>(), cfg.row(full(m), r.len() as int).custom == fone::<F>(),
{
    let n = r.len() as int;
    let t = full(m);
    assert forall|i: int| #[trigger] cfg.own(shift(t, i), tb) by {
        assert(cfg.row(shift(t, i), 0) == cfg.row(t, i) && cfg.row(shift(t, i), -1) == cfg.row(t, i - 1));
        if 1 <= i <= n {
            body_row(cfg, r, m1, m, st, i);
            row_is_linked(r, st as int, i - 1, cfg.row(t, i - 1), cfg.row(t, i));
        } else {
            blank_row(cfg, r, m1, m, st, i);
        }
        let v = fmul(cfg.row(t, i).mark, cfg.row(t, i - 1).ctrl);
        broadcast use laws;
        if !(1 <= i <= n) { assert(v == fnat::<F>(0nat * unit())); }
        assert(in_range(v, st as nat));
        let j = choose|j: nat| j <= st && v == #[trigger] fnat::<F>(j * unit());
        assert(holds(table_rows(tb, cfg.range()), j));
        assert(exists|k: int| #[trigger] is_row(k) && tb(cfg.range(), k) == fnat::<F>(j * unit()));
    }
    assert forall|i: int| 1 <= i <= n implies (#[trigger] cfg.row(t, i)).q == fone::<F>() && permuted(|s: Seq<F>| F::s_perm(s), cfg.row(t, i)) by {
        body_row(cfg, r, m1, m, st, i);
        let w = cfg.row(t, i);
        assert(sin(r, st as int, i - 1) =~= seq![w.in0, w.in1, w.in2]);
        assert(sout(r, st as int, i - 1) =~= seq![w.out0, w.out1, w.out2]);
    }
}

// ---- C16: a piece of the requests that begins and ends with an entry is filled in as in the whole
pub open spec fn cut<F>(r: Seq<Req<F>>, st: int, a: int, e: int) -> bool { 0 <= a < e <= r.len() && opens(r, st, a) && (e == r.len() || r[e - 1].ctrl <= st) }
proof fn sin_cut<F: Hashable>(r: Seq<Req<F>>, st: int, a: int, e: int, i: int)
    requires cut(r, st, a, e), 0 <= i < e - a
    ensures sin(r.subrange(a, e), st, i) == sin(r, st, a + i), opens(r.subrange(a, e), st, i) == opens(r, st, a + i)
    decreases i
{
    let p = r.subrange(a, e);
    assert(p[i] == r[a + i]);
    if i > 0 { assert(p[i - 1] == r[a + i - 1]); sin_cut(r, st, a, e, i - 1); }
}
proof fn stop_cut<F: Hashable>(r: Seq<Req<F>>, st: int, a: int, e: int, i: int)
    requires cut(r, st, a, e), 0 <= i < e - a
    ensures a + stop(r.subrange(a, e), st, i) == stop(r, st, a + i), i <= stop(r.subrange(a, e), st, i) < e - a
    decreases e - a - i
{
    let p = r.subrange(a, e);
    assert(p[i] == r[a + i]);
    if i + 1 < e - a && r[a + i].ctrl > st { stop_cut(r, st, a, e, i + 1); }
}
pub proof fn filled_cut<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(cfg: SpongeConfig<F, PC>, m: Cells<F>, r: Seq<Req<F>>, st: int, a: int, e: int, i: int, o: int)
    requires cut(r, st, a, e), 0 <= i < e - a
    ensures cfg.filled(m, r.subrange(a, e), st, i, o) == cfg.filled(m, r, st, a + i, o)
{
    reveal(SpongeConfig::holds_row);
    sin_cut(r, st, a, e, i);
    stop_cut(r, st, a, e, i);
    let k = stop(r.subrange(a, e), st, i);
    sin_cut(r, st, a, e, k);
    assert(r.subrange(a, e)[i] == r[a + i]);
    assert(r.subrange(a, e)[k] == r[a + k]);
}
