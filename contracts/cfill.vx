//@@struct PoseidonHashTable
//@@include entries.vx
// ---- C15: what the fill functions assign
/// one requested permutation: two words, the control number, the domain, the digest expected
pub struct Req<F> { pub w0: F, pub w1: F, pub ctrl: u64, pub dom: F, pub check: Option<F> }
pub open spec fn flag<F>(c: u64) -> F { fnat::<F>((c * 0x1_0000_0000_0000_0000) as nat) }
/// request i opens an entry: the one before it was the last of its message
pub open spec fn opens<F>(r: Seq<Req<F>>, step: int, i: int) -> bool { i <= 0 || r[i - 1].ctrl <= step }
/// the state that goes into permutation i: capacity and words for a new entry, words added to the previous result otherwise
pub open spec fn sin<F: Hashable>(r: Seq<Req<F>>, step: int, i: int) -> Seq<F> decreases i {
    if opens(r, step, i) { seq![fadd(flag::<F>(r[i].ctrl), r[i].dom), r[i].w0, r[i].w1] }
    else { let s = F::s_perm(sin(r, step, i - 1)); seq![s[0], fadd(s[1], r[i].w0), fadd(s[2], r[i].w1)] }
}
pub open spec fn sout<F: Hashable>(r: Seq<Req<F>>, step: int, i: int) -> Seq<F> { F::s_perm(sin(r, step, i)) }
/// the last row of the entry that row i belongs to, or the last row
pub open spec fn stop<F>(r: Seq<Req<F>>, step: int, i: int) -> int decreases r.len() - i { if i + 1 >= r.len() || r[i].ctrl <= step { i } else { stop(r, step, i + 1) } }
pub proof fn stop_is<F>(r: Seq<Req<F>>, step: int, i: int, e: int)
    requires 0 <= i <= e < r.len(), r[e].ctrl <= step || e == r.len() - 1, forall|k: int| i <= k < e ==> (#[trigger] r[k]).ctrl > step
    ensures stop(r, step, i) == e
    decreases e - i
{ if i < e { assert(r[i].ctrl > step); stop_is(r, step, i + 1, e); } }
impl<F: PrimeField> PoseidonHashTable<F> {
    /// request i of a table filled up to its capacity with zeros
    pub open spec fn req(&self, i: int) -> Req<F> {
        Req { w0: if i < self.inputs@.len() { self.inputs@[i]@[0] } else { fzero::<F>() }, w1: if i < self.inputs@.len() { self.inputs@[i]@[1] } else { fzero::<F>() },
            ctrl: at(self.controls@, i, 0), dom: match at(self.domain@, i, None) { Some(d) => d, None => fzero::<F>() }, check: at(self.checks@, i, None) }
    }
    pub open spec fn reqs(&self, n: int) -> Seq<Req<F>> { Seq::new(n as nat, |i: int| self.req(i)) }
}
/// the requests a slice of a padded table stands for
pub open spec fn req_of<F: Field>(x: ((Option<&[F; 2]>, Option<&u64>), (Option<&F>, Option<&F>))) -> Req<F> {
    Req { w0: match x.0.0 { Some(w) => w@[0], None => fzero::<F>() }, w1: match x.0.0 { Some(w) => w@[1], None => fzero::<F>() },
        ctrl: match x.0.1 { Some(c) => *c, None => 0 }, dom: match x.1.0 { Some(d) => *d, None => fzero::<F>() }, check: match x.1.1 { Some(d) => Some(*d), None => None } }
}
pub open spec fn reqs_of<F: Field>(d: Seq<((Option<&[F; 2]>, Option<&u64>), (Option<&F>, Option<&F>))>) -> Seq<Req<F>> { Seq::new(d.len(), |i: int| req_of(d[i])) }
/// n is m with zeros in row 0 of the first k columns
pub open spec fn zeroed<F: Field>(m: Cells<F>, n: Cells<F>, cols: Seq<&Column<Advice>>, k: int) -> bool {
    forall|c: Cell, o: int| #[trigger] n(c, o) == (if o == 0 && exists|j: int| 0 <= j < k && c == (#[trigger] cols[j]).c() { Some(fzero::<F>()) } else { m(c, o) })
}
impl<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>> SpongeConfig<F, PC> {
    /// row 0: zero, and nothing else but zero is accepted there
    pub closed spec fn head(&self, m0: Cells<F>, m: Cells<F>) -> bool {
        &&& m(self.s_custom.c(), 0) == Some(fone::<F>())
        &&& forall|k: int| 0 <= k < 6 ==> m((#[trigger] self.hash_table@[k]).c(), 0) == Some(fzero::<F>())
        &&& forall|k: int| 0 <= k < 6 ==> m((#[trigger] self.hash_table_aux@[k]).c(), 0) == Some(fzero::<F>())
        &&& m(self.control_aux.c(), 0) == Some(fzero::<F>()) && m(self.s_sponge_continue.c(), 0) == Some(fzero::<F>())
        &&& forall|c: Cell, o: int| #[trigger] m(c, o) == m0(c, o) || o == 0 && (self.mine(c) && c != self.q_enable.c() || c == self.s_custom.c())
    }
    pub closed spec fn mine(&self, c: Cell) -> bool {
        ||| c == self.q_enable.c() || c == self.s_sponge_continue.c() || c == self.control_aux.c()
        ||| exists|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table@[k]).c()
        ||| exists|k: int| 0 <= k < 6 && c == (#[trigger] self.hash_table_aux@[k]).c()
    }
    pub closed spec fn index_cell(&self) -> Cell { self.hash_table@[0].c() }
    pub closed spec fn custom_cell(&self) -> Cell { self.s_custom.c() }
    /// row o holds permutation i: everything but the index
    #[verifier::opaque]
    pub closed spec fn holds_row(&self, m: Cells<F>, r: Seq<Req<F>>, step: int, i: int, o: int) -> bool {
        &&& m(self.q_enable.c(), o) == Some(fone::<F>())
        &&& m(self.hash_table@[1].c(), o) == Some(r[i].w0) && m(self.hash_table@[2].c(), o) == Some(r[i].w1)
        &&& m(self.hash_table@[3].c(), o) == Some(flag::<F>(r[i].ctrl)) && m(self.hash_table@[4].c(), o) == Some(r[i].dom)
        &&& m(self.hash_table@[5].c(), o) == Some(if opens(r, step, i) { fone::<F>() } else { fzero::<F>() })
        &&& m(self.s_sponge_continue.c(), o) == Some(if opens(r, step, i) { fzero::<F>() } else { fone::<F>() })
        &&& m(self.control_aux.c(), o) == Some(if flag::<F>(r[i].ctrl) == fzero::<F>() { fzero::<F>() } else { finv(flag::<F>(r[i].ctrl)) })
        &&& sin(r, step, i).len() == 3 && sout(r, step, i).len() == 3
        &&& m(self.hash_table_aux@[0].c(), o) == Some(sin(r, step, i)[0]) && m(self.hash_table_aux@[1].c(), o) == Some(sin(r, step, i)[1]) && m(self.hash_table_aux@[2].c(), o) == Some(sin(r, step, i)[2])
        &&& m(self.hash_table_aux@[5].c(), o) == Some(sout(r, step, i)[0]) && m(self.hash_table_aux@[3].c(), o) == Some(sout(r, step, i)[1]) && m(self.hash_table_aux@[4].c(), o) == Some(sout(r, step, i)[2])
    }
    /// row o holds permutation i; an entry that is complete has its digest in every row
    pub open spec fn filled(&self, m: Cells<F>, r: Seq<Req<F>>, step: int, i: int, o: int) -> bool {
        self.holds_row(m, r, step, i, o) && (r[stop(r, step, i)].ctrl <= step ==> m(self.index_cell(), o) == Some(sout(r, step, stop(r, step, i))[0]))
    }
    /// the words returned for row o are its cells
    pub closed spec fn hands_over(&self, x: [PC::Word; 3], y: [PC::Word; 3], r: Seq<Req<F>>, step: int, i: int, g: int, o: int) -> bool {
        &&& word::<F, _>(x@[0]).is(g, self.hash_table_aux@[0].c(), o, sin(r, step, i)[0]) && word::<F, _>(x@[1]).is(g, self.hash_table_aux@[1].c(), o, sin(r, step, i)[1]) && word::<F, _>(x@[2]).is(g, self.hash_table_aux@[2].c(), o, sin(r, step, i)[2])
        &&& word::<F, _>(y@[0]).is(g, self.hash_table_aux@[5].c(), o, sout(r, step, i)[0]) && word::<F, _>(y@[1]).is(g, self.hash_table_aux@[3].c(), o, sout(r, step, i)[1]) && word::<F, _>(y@[2]).is(g, self.hash_table_aux@[4].c(), o, sout(r, step, i)[2])
    }
    /// requests rq, filled in from row b on; the last row is made custom if it is the last of the table
    pub open spec fn filled_in(&self, m0: Cells<F>, m: Cells<F>, rq: Seq<Req<F>>, st: int, b: int, last: bool) -> bool {
        let n = rq.len() as int;
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.filled(m, rq, st, i, b + i)
        &&& forall|i: int| 0 <= i < n && (#[trigger] rq[stop(rq, st, i)]).ctrl > st ==> m(self.index_cell(), b + i) == m0(self.index_cell(), b + i)
        &&& last ==> m(self.custom_cell(), b + n - 1) == Some(fone::<F>())
        &&& forall|c: Cell, o: int| #[trigger] m(c, o) == m0(c, o) || b <= o < b + n && self.mine(c) || last && c == self.custom_cell() && o == b + n - 1
        &&& forall|i: int| 0 <= i < n && (#[trigger] rq[i]).check is Some ==> rq[i].check == Some(sout(rq, st, i)[0])
    }
    /// the words returned are the cells of the rows b, b + 1, .. of region g
    pub open spec fn handed(&self, x: Seq<[PC::Word; 3]>, y: Seq<[PC::Word; 3]>, rq: Seq<Req<F>>, st: int, b: int, g: int) -> bool {
        &&& x.len() == rq.len() && y.len() == rq.len()
        &&& forall|i: int| 0 <= i < rq.len() ==> #[trigger] self.hands_over(x[i], y[i], rq, st, i, g, b + i)
    }
    proof fn holds_row_same(&self, m: Cells<F>, n: Cells<F>, r: Seq<Req<F>>, step: int, i: int, o: int)
        requires self.wf(), self.holds_row(m, r, step, i, o), forall|c: Cell| c != self.index_cell() && self.mine(c) ==> #[trigger] n(c, o) == m(c, o)
        ensures self.holds_row(n, r, step, i, o)
    { reveal(SpongeConfig::holds_row); self.all_mine(); }
    proof fn all_mine(&self)
        ensures forall|k: int| 0 <= k < 6 ==> self.mine((#[trigger] self.hash_table@[k]).c()), forall|k: int| 0 <= k < 6 ==> self.mine((#[trigger] self.hash_table_aux@[k]).c()),
            self.mine(self.q_enable.c()), self.mine(self.s_sponge_continue.c()), self.mine(self.control_aux.c())
    {}
}
//@@type PermutedState
//@@type PermutedStatePair
//@@struct SpongeChip
//@@impl SpongeChip<'d,F,STEP,PC> as SpongeChip
    /// the requests, filled up to the capacity of the chip
    /// the table's entries and controls are no more than the capacity
    pub closed spec fn fits(&self) -> bool { self.data.inputs@.len() <= self.cap() && self.data.controls@.len() <= self.cap() }
    pub closed spec fn rq(&self) -> Seq<Req<F>> { self.data.reqs(self.calcs as int) }
    pub closed spec fn cfg(&self) -> SpongeConfig<F, PC> { self.config }
    pub closed spec fn cap(&self) -> int { self.calcs as int }
//@ method fill_hash_tbl_custom
//@ opt unroll
        requires self.cfg().wf()
        ensures r is Ok ==> r->Ok_0 == 1 && self.cfg().head(old(region).cells@, final(region).cells@) && final(region).tag@ == old(region).tag@
//@ at begin
        let ghost (cfg, tag0) = (self.config, region.tag@);
        proof { cfg.all_mine(); }
//@ at before-loop 0
        let ghost (q0, s0) = (region.cells@, it0__.items());
        assert(s0.len() == 6);
//@ loop 0
            invariant n0__ == 6, region.tag@ == tag0, i0__ <= n0__, s0 == it0__.items(), s0.len() == 6, zeroed(q0, region.cells@, s0, i0__ as int)
            decreases n0__ - i0__
//@ at after-loop 0
        proof { 
            assert forall|k: int| 0 <= k < 6 implies region.cells@((#[trigger] cfg.hash_table@[k]).c(), 0) == Some(fzero::<F>()) by { assert(*s0[k] == cfg.hash_table@[k]); }
        }
//@ at before-loop 1
        let ghost (q1, s1) = (region.cells@, it1__.items());
        assert(s1.len() == 6);
//@ loop 1
            invariant n1__ == 6, region.tag@ == tag0, i1__ <= n1__, s1 == it1__.items(), s1.len() == 6, zeroed(q1, region.cells@, s1, i1__ as int)
            decreases n1__ - i1__
//@ at after-loop 1
        proof { 
            assert forall|k: int| 0 <= k < 6 implies region.cells@((#[trigger] cfg.hash_table_aux@[k]).c(), 0) == Some(fzero::<F>()) by { assert(*s1[k] == cfg.hash_table_aux@[k]); }
        }
//@ at before-loop 2
        let ghost (q2, s2) = (region.cells@, it2__.items());
        assert(s2.len() == 1);
//@ loop 2
            invariant n2__ == 1, region.tag@ == tag0, i2__ <= n2__, s2 == it2__.items(), s2.len() == 1, zeroed(q2, region.cells@, s2, i2__ as int)
            decreases n2__ - i2__
//@ at after-loop 2
        proof { 
            assert(region.cells@((*s2[0]).c(), 0) == Some(fzero::<F>()));
        }
//@ at before-loop 3
        let ghost (q3, s3) = (region.cells@, it3__.items());
        assert(s3.len() == 1);
//@ loop 3
            invariant n3__ == 1, region.tag@ == tag0, i3__ <= n3__, s3 == it3__.items(), s3.len() == 1, zeroed(q3, region.cells@, s3, i3__ as int)
            decreases n3__ - i3__
//@ at after-loop 3
        proof { 
            assert(region.cells@((*s3[0]).c(), 0) == Some(fzero::<F>()));
        }
//@ method fill_hash_tbl_body
//@ opt unroll
//@ opt refuses
//@ opt map option inp
//@ opt map result
        requires self.cfg().wf(), 1 <= self.cap(), self.cap() + begin_offset < usize::MAX
        ensures r is Ok ==> self.data.inputs@.len() <= self.cap() && self.data.controls@.len() <= self.cap()
            && self.cfg().filled_in(old(region).cells@, final(region).cells@, self.rq(), STEP as int, begin_offset as int, true) && self.cfg().handed((r->Ok_0).0@, (r->Ok_0).1@, self.rq(), STEP as int, begin_offset as int, old(region).tag@.0) && final(region).tag@ == old(region).tag@
//@ at begin
        let ghost (m0, rq, b, st, cfg) = (region.cells@, self.rq(), begin_offset as int, STEP as int, self.config);
        let ghost mut m4 = m0;
        let ghost (tag0, g) = (region.tag@, region.tag@.0);
        proof { cfg.all_mine(); }
//@ loop 0
            invariant n0__ == self.calcs, i0__ <= n0__, 1 <= n0__, n0__ + begin_offset < usize::MAX, rq == self.rq(), b == begin_offset, st == STEP, cfg == self.config, *config == cfg, cfg.wf(), *data == *self.data,
                c0__ is None, c1__ is None, c2__ is None, c3__ is None, rq.len() == n0__,
                is_new_sponge == opens(rq, st, i0__ as int),
                i0__ > 0 ==> state@ == sout(rq, st, i0__ - 1) && last_offset == b + i0__ - 1,
                !is_new_sponge ==> b <= process_start < b + i0__ && (forall|k: int| process_start - b <= k < i0__ ==> (#[trigger] rq[k]).ctrl > st),
                forall|i: int| 0 <= i < i0__ ==> #[trigger] cfg.holds_row(region.cells@, rq, st, i, b + i),
                forall|i: int| 0 <= i < (if is_new_sponge { i0__ as int } else { process_start - b }) ==> #[trigger] cfg.filled(region.cells@, rq, st, i, b + i),
                forall|c: Cell, o: int| #[trigger] region.cells@(c, o) == m0(c, o) || b <= o < b + i0__ && cfg.mine(c),
                states_in@.len() == i0__, states_out@.len() == i0__,
                forall|i: int| 0 <= i < i0__ ==> #[trigger] cfg.hands_over(states_in@[i], states_out@[i], rq, st, i, g, b + i), region.tag@ == tag0, g == tag0.0,
                forall|i: int| 0 <= i < (if is_new_sponge { i0__ as int } else { process_start - b }) ==> (#[trigger] rq[stop(rq, st, i)]).ctrl <= st,
                !is_new_sponge ==> (forall|o: int| o >= process_start ==> #[trigger] region.cells@(cfg.index_cell(), o) == m0(cfg.index_cell(), o)),
                is_new_sponge ==> (forall|o: int| o >= b + i0__ ==> #[trigger] region.cells@(cfg.index_cell(), o) == m0(cfg.index_cell(), o)),
                forall|i: int| 0 <= i < i0__ && (#[trigger] rq[i]).check is Some ==> rq[i].check == Some(sout(rq, st, i)[0])
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost (m1, s0, ps, in0, out0, nw) = (region.cells@, state@, process_start as int, states_in@, states_out@, is_new_sponge);
            let ghost mut m2 = m1;
//@ loop 1
                invariant n1__ == 2, i1__ <= 2, it1__@ == inp@, state@.len() == 3, region.cells@ == m1, region.tag@ == tag0, state@[0] == (if is_new_sponge { fadd(control_as_flag, domain) } else { s0[0] }),
                    forall|k: int| 1 <= k < 3 ==> #[trigger] state@[k] == (if k <= i1__ { if is_new_sponge { it1__@[k - 1] } else { fadd(s0[k], it1__@[k - 1]) } } else { s0[k] })
                decreases n1__ - i1__
//@ at after-loop 1
            proof { assert(state@ =~= sin(rq, st, j0__ as int)); }
//@ at before-loop 2
            proof {
                m2 = region.cells@;
                assert(cfg.holds_row(m2, rq, st, j0__ as int, b + j0__)) by { reveal(SpongeConfig::holds_row); }
            }
//@ loop 2
                    invariant n2__ == offset + 1 - process_start, region.tag@ == tag0, i2__ <= n2__, offset == b + j0__, cfg == self.config, *config == cfg, b <= process_start <= offset, offset < usize::MAX,
                        forall|c: Cell, o: int| #[trigger] region.cells@(c, o) == (if c == cfg.index_cell() && process_start <= o < process_start + i2__ { Some(current_hash) } else { m2(c, o) }),
                    decreases n2__ - i2__
//@ at loop-end 0
            proof {
                let (m3, j) = (region.cells@, j0__ as int);
                assert forall|i: int| 0 <= i <= j implies #[trigger] cfg.holds_row(m3, rq, st, i, b + i) by {
                    if i < j { assert(cfg.holds_row(m1, rq, st, i, b + i)); cfg.holds_row_same(m1, m3, rq, st, i, b + i); } else if !is_new_sponge { reveal(SpongeConfig::holds_row); } else { cfg.holds_row_same(m2, m3, rq, st, i, b + i); }
                }
                assert forall|i: int| 0 <= i < (if is_new_sponge { j + 1 } else { process_start - b }) implies #[trigger] cfg.filled(m3, rq, st, i, b + i) by {
                    assert(cfg.holds_row(m3, rq, st, i, b + i));
                    if i < process_start - b { assert(cfg.filled(m1, rq, st, i, b + i)); assert(m3(cfg.index_cell(), b + i) == m1(cfg.index_cell(), b + i)); } else { stop_is(rq, st, i, j); }
                }
                assert forall|i: int| 0 <= i < (if is_new_sponge { j + 1 } else { process_start - b }) implies (#[trigger] rq[stop(rq, st, i)]).ctrl <= st by {
                    if i >= process_start - b { stop_is(rq, st, i, j); }
                }
            }
//@ at after-loop 0
        proof { m4 = region.cells@; }
//@ at tail
        proof {
            let m5 = region.cells@;
            assert forall|i: int| 0 <= i < self.calcs implies #[trigger] cfg.filled(m5, rq, st, i, b + i) by {
                assert(cfg.holds_row(m4, rq, st, i, b + i));
                cfg.holds_row_same(m4, m5, rq, st, i, b + i);
                if i < (if is_new_sponge { self.calcs as int } else { process_start - b }) { assert(cfg.filled(m4, rq, st, i, b + i)); } else { stop_is(rq, st, i, self.calcs - 1); }
            }
        }
//@ method fill_hash_tbl_body_partial
//@ opt unroll
//@ opt refuses
//@ opt map option inp
//@ opt map result
        requires self.cfg().wf(), data@.len() >= 1
        ensures *final(is_first_pass) == false,
            r is Ok && *old(is_first_pass) ==> (r->Ok_0).0@.len() == 0 && (r->Ok_0).1@.len() == 0,
            r is Ok && !*old(is_first_pass) ==> self.cfg().filled_in(old(region).cells@, final(region).cells@, reqs_of(data@), STEP as int, 0, is_last_sub_region) && self.cfg().handed((r->Ok_0).0@, (r->Ok_0).1@, reqs_of(data@), STEP as int, 0, old(region).tag@.0) && final(region).tag@ == old(region).tag@
//@ at begin
        let ghost (m0, rq, b, st, cfg) = (region.cells@, reqs_of(data@), 0int, STEP as int, self.config);
        let ghost mut m4 = m0;
        let ghost (tag0, g) = (region.tag@, region.tag@.0);
        proof { cfg.all_mine(); }
//@ loop 0
            invariant n0__ == data@.len(), i0__ <= n0__, 1 <= n0__, rq == reqs_of(data@), b == 0, st == STEP, cfg == self.config, *config == cfg, cfg.wf(),
                !*is_first_pass, rq.len() == n0__,
                is_new_sponge == opens(rq, st, i0__ as int),
                i0__ > 0 ==> state@ == sout(rq, st, i0__ - 1),
                !is_new_sponge ==> b <= process_start < b + i0__ && (forall|k: int| process_start - b <= k < i0__ ==> (#[trigger] rq[k]).ctrl > st),
                forall|i: int| 0 <= i < i0__ ==> #[trigger] cfg.holds_row(region.cells@, rq, st, i, b + i),
                forall|i: int| 0 <= i < (if is_new_sponge { i0__ as int } else { process_start - b }) ==> #[trigger] cfg.filled(region.cells@, rq, st, i, b + i),
                forall|c: Cell, o: int| #[trigger] region.cells@(c, o) == m0(c, o) || b <= o < b + i0__ && cfg.mine(c),
                states_in@.len() == i0__, states_out@.len() == i0__,
                forall|i: int| 0 <= i < i0__ ==> #[trigger] cfg.hands_over(states_in@[i], states_out@[i], rq, st, i, g, b + i), region.tag@ == tag0, g == tag0.0,
                forall|i: int| 0 <= i < (if is_new_sponge { i0__ as int } else { process_start - b }) ==> (#[trigger] rq[stop(rq, st, i)]).ctrl <= st,
                !is_new_sponge ==> (forall|o: int| o >= process_start ==> #[trigger] region.cells@(cfg.index_cell(), o) == m0(cfg.index_cell(), o)),
                is_new_sponge ==> (forall|o: int| o >= b + i0__ ==> #[trigger] region.cells@(cfg.index_cell(), o) == m0(cfg.index_cell(), o)),
                forall|i: int| 0 <= i < i0__ && (#[trigger] rq[i]).check is Some ==> rq[i].check == Some(sout(rq, st, i)[0])
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost (m1, s0, ps, in0, out0, nw) = (region.cells@, state@, process_start as int, states_in@, states_out@, is_new_sponge);
            let ghost mut m2 = m1;
//@ loop 1
                invariant n1__ == 2, i1__ <= 2, it1__@ == inp@, state@.len() == 3, region.cells@ == m1, region.tag@ == tag0, state@[0] == (if is_new_sponge { fadd(control_as_flag, domain) } else { s0[0] }),
                    forall|k: int| 1 <= k < 3 ==> #[trigger] state@[k] == (if k <= i1__ { if is_new_sponge { it1__@[k - 1] } else { fadd(s0[k], it1__@[k - 1]) } } else { s0[k] })
                decreases n1__ - i1__
//@ at after-loop 1
            proof { assert(state@ =~= sin(rq, st, j0__ as int)); }
//@ at before-loop 2
            proof {
                m2 = region.cells@;
                assert(cfg.holds_row(m2, rq, st, j0__ as int, b + j0__)) by { reveal(SpongeConfig::holds_row); }
            }
//@ loop 2
                    invariant !*is_first_pass, n2__ == offset + 1 - process_start, region.tag@ == tag0, i2__ <= n2__, offset == b + j0__, cfg == self.config, *config == cfg, b <= process_start <= offset, n0__ <= usize::MAX, j0__ < n0__,
                        forall|c: Cell, o: int| #[trigger] region.cells@(c, o) == (if c == cfg.index_cell() && process_start <= o < process_start + i2__ { Some(current_hash) } else { m2(c, o) }),
                    decreases n2__ - i2__
//@ at loop-end 0
            proof {
                let (m3, j) = (region.cells@, j0__ as int);
                assert forall|i: int| 0 <= i <= j implies #[trigger] cfg.holds_row(m3, rq, st, i, b + i) by {
                    if i < j { assert(cfg.holds_row(m1, rq, st, i, b + i)); cfg.holds_row_same(m1, m3, rq, st, i, b + i); } else if !is_new_sponge { reveal(SpongeConfig::holds_row); } else { cfg.holds_row_same(m2, m3, rq, st, i, b + i); }
                }
                assert forall|i: int| 0 <= i < (if is_new_sponge { j + 1 } else { process_start - b }) implies #[trigger] cfg.filled(m3, rq, st, i, b + i) by {
                    assert(cfg.holds_row(m3, rq, st, i, b + i));
                    if i < process_start - b { assert(cfg.filled(m1, rq, st, i, b + i)); assert(m3(cfg.index_cell(), b + i) == m1(cfg.index_cell(), b + i)); } else { stop_is(rq, st, i, j); }
                }
                assert forall|i: int| 0 <= i < (if is_new_sponge { j + 1 } else { process_start - b }) implies (#[trigger] rq[stop(rq, st, i)]).ctrl <= st by {
                    if i >= process_start - b { stop_is(rq, st, i, j); }
                }
            }
//@ at after-loop 0
        proof { m4 = region.cells@; }
//@ at tail
        proof {
            let m5 = region.cells@;
            assert forall|i: int| 0 <= i < data@.len() implies #[trigger] cfg.filled(m5, rq, st, i, b + i) by {
                assert(cfg.holds_row(m4, rq, st, i, b + i));
                cfg.holds_row_same(m4, m5, rq, st, i, b + i);
                if i < (if is_new_sponge { data@.len() as int } else { process_start - b }) { assert(cfg.filled(m4, rq, st, i, b + i)); } else { stop_is(rq, st, i, data@.len() - 1); }
            }
        }
//@ method load
//@ opt unroll
//@ opt layouter
//@ opt #[verifier::rlimit(60)]
//@ opt refuses
//@ opt map result
        requires self.cfg().wf(), 1 <= self.cap(), self.cap() + 2 < usize::MAX, STEP < usize::MAX
        ensures r is Ok ==> loaded(self.cfg(), old(layouter).circ(), final(layouter).circ(), self.rq(), STEP as int)
            && self.fits()
//@ at begin
        hide(SpongeConfig::filled_in);
        hide(SpongeConfig::handed);
        hide(SpongeConfig::hands_over);
        hide(SpongeConfig::head);
        hide(SpongeConfig::wf);
        hide(stacked);
        hide(handed_at);
        let ghost (l0, rq, st, cfg, tb) = (layouter.circ(), self.rq(), STEP as int, self.config, self.config.control_step_range);
        let ghost first = l0.regions.len() as int;
        let ghost n = self.calcs as int;
        let ghost mut cuts = seq![0int];
        let ghost mut starts = seq![0int];
        let ghost mut m = blank::<F>();
        let ghost mut m1 = blank::<F>();
        let ghost mut regs = l0.regions;
        let ghost (mut l1, mut l2, mut l3) = (l0, l0, l0);
        let ghost mut ret0 = Seq::<(Vec<[PC::Word; 3]>, Vec<[PC::Word; 3]>)>::empty();
        let ghost mut xs = Seq::<[PC::Word; 3]>::empty();
        proof { assert(rq.len() == n); }
//@ loop 0
            invariant n0__ == STEP + 1, i0__ <= n0__, STEP < usize::MAX, *config == self.config, tb == self.config.control_step_range, layouter.circ() == l0,
                forall|x: TableColumn, y: int| #[trigger] table.cells@(x, y) == (if x == tb && 0 <= y < i0__ { Some(fnat::<F>((y * 0x1_0000_0000_0000_0000) as nat)) } else { (l0.table)(x, y) })
            decreases n0__ - i0__
//@ at loop-begin 0
            assert(j0__ as u128 * 0x1_0000_0000_0000_0000u128 <= u128::MAX) by (nonlinear_arith) requires j0__ <= usize::MAX, usize::MAX == 0xffff_ffff_ffff_ffff;
//@ loop 1
            invariant n1__ == self.calcs, i1__ <= n1__, *data == *self.data, c0__ is None, c1__ is None, c2__ is None, c3__ is None, v1__@.len() == i1__,
                forall|i: int| 0 <= i < i1__ ==> req_of(#[trigger] v1__@[i]) == self.data.req(i)
            decreases n1__ - i1__
//@ at after-loop 1
            proof { assert(reqs_of(v1__@) =~= rq); }
//@ loop 2
            invariant n2__ == data@.len(), i2__ <= n2__, reqs_of(data@) == rq, rq.len() == n2__, st == STEP, 0 <= cur_chunk_begin <= i2__, n2__ < usize::MAX,
                cuts.last() == cur_chunk_begin, opens(rq, st, cur_chunk_begin as int), pieces(data@, output@, rq, st, cuts)
            decreases n2__ - i2__
//@ at loop-begin 2
            assert(rq[j2__ as int] == req_of(data@[j2__ as int]));
            let ghost out0 = output@;
//@ at loop-end 2
            proof {
                if output@.len() > out0.len() {
                    cuts = cuts.push(cur_chunk_begin as int);
                }
            }
//@ loop 3
                invariant n3__ == assignments_len, i3__ <= n3__, n3__ >= 1, it3__@.len() == n3__, placed__@.len() == i3__, pieces(data@, it3__@, rq, st, cuts), cuts.last() == n, n == rq.len(), reqs_of(data@) == rq, cfg == self.config, *config == cfg, cfg.wf(), st == STEP, l1.regions.len() == first + 1,
                    layouter.circ().table == l1.table, layouter.circ().links == l1.links, layouter.circ().perms == l1.perms,
                    layouter.circ().regions.len() == first + 1 + i3__, forall|k: int| 0 <= k < first + 1 ==> #[trigger] layouter.circ().regions[k] == l1.regions[k],
                    forall|k: int| 0 <= k < i3__ ==> #[trigger] piece_in(cfg, layouter.circ().regions[first + 1 + k], placed__@, rq, st, cuts, k, first + 1 + k)
                decreases n3__ - i3__
//@ at before-loop 3
            proof {
                if cuts.last() < n { cuts = cuts.push(n); }
                assert(pieces(data@, it3__@, rq, st, cuts) && cuts.last() == n);
                l1 = layouter.circ();
            }
//@ at loop-begin 3
                let ghost (regs0, placed0) = (layouter.circ().regions, placed__@);
                proof {
                    let k = j3__ as int;
                    assert(cut(rq, st, cuts[k], cuts[k + 1]));
                    assert(reqs_of(it3__@[k]@) =~= rq.subrange(cuts[k], cuts[k + 1]));
                }
//@ at loop-end 3
                proof {
                    let k = j3__ as int;
                    reveal(piece_in);
                    assert(cuts.len() == n3__ + 1);
                    assert(piece_in(cfg, layouter.circ().regions[first + 1 + k], placed__@, rq, st, cuts, k, first + 1 + k));
                    assert forall|q: int| 0 <= q < k implies #[trigger] piece_in(cfg, layouter.circ().regions[first + 1 + q], placed__@, rq, st, cuts, q, first + 1 + q) by {
                        assert(piece_in(cfg, regs0[first + 1 + q], placed0, rq, st, cuts, q, first + 1 + q));
                    }
                }
//@ at after-loop 3
            proof {
                starts = Seq::new(cuts.len() + 1, |k: int| if k == 0 { 0 } else { 1 + cuts[k - 1] });
                m1 = l1.regions[first];
                m = unstack(layouter.circ().regions, first, starts, starts.len() - 1);
                many_regions(cfg, layouter.circ().regions, first, rq, st, cuts, starts, placed__@);
            }
//@ loop 4
                invariant it4__@ == ret0, n4__ == ret0.len(), i4__ <= n4__, cuts.len() == n4__ + 1, cuts[0] == 0, regs.len() == first + 1 + n4__, states_in@.len() == cuts[i4__ as int], states_out@.len() == cuts[i4__ as int],
                    starts == Seq::new(cuts.len() + 1, |k: int| if k == 0 { 0 } else { 1 + cuts[k - 1] }), 
                    forall|k: int| 0 <= k < n4__ ==> #[trigger] piece_in(cfg, regs[first + 1 + k], ret0, rq, st, cuts, k, first + 1 + k),
                    forall|i: int| 0 <= i < cuts[i4__ as int] ==> handed_at(cfg, #[trigger] states_in@[i], states_out@[i], rq, st, i, starts, first)
                decreases n4__ - i4__
//@ at before-loop 4
            proof { ret0 = it4__@; regs = layouter.circ().regions; }
//@ at loop-begin 4
                let ghost (in0, out0) = (states_in@, states_out@);
                proof { piece_words(cfg, regs[first + 1 + j4__], ret0, rq, st, cuts, j4__ as int, first, starts); }
//@ at loop-end 4
                proof {
                    let k = j4__ as int;
                    assert forall|i: int| 0 <= i < cuts[k + 1] implies handed_at(cfg, #[trigger] states_in@[i], states_out@[i], rq, st, i, starts, first) by {
                        if i < cuts[k] { assert(handed_at(cfg, in0[i], out0[i], rq, st, i, starts, first)); } else { assert(handed_at(cfg, ret0[k].0@[i - cuts[k]], ret0[k].1@[i - cuts[k]], rq, st, cuts[k] + (i - cuts[k]), starts, first)); }
                    }
                }
//@ at after-loop 4
            proof { xs = states_in@; l2 = layouter.circ(); }
//@ at before-loop 5
            proof {
                l2 = layouter.circ();
                xs = it5__@;
                m1 = choose|m1: Cells<F>| #[trigger] cfg.head(blank::<F>(), m1) && cfg.filled_in(m1, l2.regions[first], rq, st, 1, true);
                m = l2.regions[first];
                starts = seq![0int, (1 + rq.len()) as int];
                one_region(cfg, l2.regions, first, m1, rq, st, xs, states_out@);
            }
//@ loop 5
                invariant it5__@ == xs, n5__ == xs.len(), i5__ <= n5__, chip_finals@.len() == i5__,
                    permuted_on(l2, layouter.circ(), asked::<F, PC::Word>(xs, chip_finals@, i5__ as nat))
                decreases n5__ - i5__
//@ at loop-begin 5
                let ghost (la, f0) = (layouter.circ(), chip_finals@);
//@ at loop-end 5
                proof {
                    let p = asked::<F, PC::Word>(xs, f0, j5__ as nat);
                    let q = asked::<F, PC::Word>(xs, chip_finals@, i5__ as nat);
                    assert(l2.perms + q =~= (l2.perms + p) + seq![q[j5__ as int]]);
                }
//@ at before-loop 6
            proof {
                l3 = layouter.circ();
                stacked_more(l2.regions, l3.regions, first, starts, m);
                assert(region.tag@.1 =~= Seq::new(0, |t: int| tie::<F, PC::Word>(states_out@, chip_finals@, t)));
            }
//@ loop 6
                invariant n6__ == n, n == rq.len(), i6__ <= n6__, states_out@.len() == n, chip_finals@.len() == n, region.cells@ == blank::<F>(), region.tag@ == (l3.regions.len() as int, Seq::new((3 * i6__) as nat, |t: int| tie::<F, PC::Word>(states_out@, chip_finals@, t)))
                decreases n6__ - i6__
//@ loop 7
                    invariant n7__ == 3, i7__ <= n7__, j6__ < states_out@.len(), states_out@.len() == chip_finals@.len(), *state == states_out@[j6__ as int], *final_state == chip_finals@[j6__ as int], region.cells@ == blank::<F>(), region.tag@ == (l3.regions.len() as int, Seq::new((3 * j6__ + i7__) as nat, |t: int| tie::<F, PC::Word>(states_out@, chip_finals@, t)))
                    decreases n7__ - i7__
//@ at loop-begin 7
                    let ghost t0 = region.tag@.1;
//@ at loop-end 7
                    proof {
                        let t = 3 * j6__ + j7__;
                        assert(t / 3 == j6__ && t % 3 == j7__) by (nonlinear_arith) requires t == 3 * j6__ + j7__, 0 <= j7__ < 3;
                        assert(region.tag@.1 == t0.push(tied(word::<F, PC::Word>(state@[j7__ as int]).at@, word::<F, PC::Word>(final_state@[j7__ as int]).at@)));
                        assert(region.tag@.1 =~= Seq::new((3 * j6__ + i7__) as nat, |t: int| tie::<F, PC::Word>(states_out@, chip_finals@, t)));
                    }
//@ at after-loop 6
            proof {
                let c1 = Circuit { regions: l3.regions.push(region.cells@), links: l3.links + region.tag@.1, ..l3 };
                stacked_more(l3.regions, c1.regions, first, starts, m);
                assert(lays(cfg, l0, c1, rq, st, starts, m1, m, xs, states_out@, chip_finals@));
            }
//@@end
