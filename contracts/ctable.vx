//@@file poseidon-base/src/hash.rs
//@@const HASHABLE_DOMAIN_SPEC
//@@file poseidon-circuit/src/hash.rs
//@@struct SpongeConfig
/// the values of one row of the table part
pub struct Row<F> { pub q: F, pub custom: F, pub index: F, pub w0: F, pub w1: F, pub ctrl: F, pub dom: F, pub mark: F, pub in0: F, pub in1: F, pub in2: F, pub out1: F, pub out2: F, pub out0: F, pub caux: F, pub s: F }
/// what the constraints say about a row r and the row p before it
pub open spec fn linked<F: Field>(p: Row<F>, r: Row<F>, stepf: F) -> bool {
    &&& r.custom != fzero::<F>() ==> r.w0 == fzero::<F>() && r.w1 == fzero::<F>() && r.ctrl == fzero::<F>()
    &&& r.q != fzero::<F>() ==> {
        &&& r.ctrl == fzero::<F>() || fmul(r.ctrl, r.caux) == fone::<F>()
        &&& r.s == fzero::<F>() && r.mark == fone::<F>() && p.index == p.out0
              && r.in0 == fadd(r.ctrl, r.dom) && r.in1 == r.w0 && r.in2 == r.w1
         || r.s == fone::<F>() && r.mark == fzero::<F>() && r.ctrl != fzero::<F>() && fmul(r.ctrl, r.caux) == fone::<F>() && p.ctrl == fadd(r.ctrl, stepf) && r.index == p.index
              && r.in0 == fadd(p.out0, r.dom) && r.in1 == fadd(p.out1, r.w0) && r.in2 == fadd(p.out2, r.w1)
    }
}
pub open spec fn row_at<F: Field>(a: Around<F>, i: int, q: Column<Fixed>, t: Seq<Column<Advice>>, x: Seq<Column<Advice>>, sc: Selector, s: Column<Advice>, ca: Column<Advice>) -> Row<F> {
    Row { q: a(q.c(), i), custom: a(sc.c(), i), index: a(t[0].c(), i), w0: a(t[1].c(), i), w1: a(t[2].c(), i), ctrl: a(t[3].c(), i), dom: a(t[4].c(), i), mark: a(t[5].c(), i),
        in0: a(x[0].c(), i), in1: a(x[1].c(), i), in2: a(x[2].c(), i), out1: a(x[3].c(), i), out2: a(x[4].c(), i), out0: a(x[5].c(), i), caux: a(ca.c(), i), s: a(s.c(), i) }
}
pub open spec fn own_at<F: Field>(p: Row<F>, r: Row<F>, range: TableColumn, step: int, t: Tables<F>) -> bool {
    &&& linked(p, r, fnat::<F>((step * 0x1_0000_0000_0000_0000) as nat))
    &&& exists|i: int| #[trigger] is_row(i) && t(range, i) == fmul(r.mark, p.ctrl)
}
pub open spec fn apart(a0: usize, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize, a7: usize, a8: usize, a9: usize, a10: usize, a11: usize, a12: usize, a13: usize) -> bool { a0 != a1 && a0 != a2 && a0 != a3 && a0 != a4 && a0 != a5 && a0 != a6 && a0 != a7 && a0 != a8 && a0 != a9 && a0 != a10 && a0 != a11 && a0 != a12 && a0 != a13 && a1 != a2 && a1 != a3 && a1 != a4 && a1 != a5 && a1 != a6 && a1 != a7 && a1 != a8 && a1 != a9 && a1 != a10 && a1 != a11 && a1 != a12 && a1 != a13 && a2 != a3 && a2 != a4 && a2 != a5 && a2 != a6 && a2 != a7 && a2 != a8 && a2 != a9 && a2 != a10 && a2 != a11 && a2 != a12 && a2 != a13 && a3 != a4 && a3 != a5 && a3 != a6 && a3 != a7 && a3 != a8 && a3 != a9 && a3 != a10 && a3 != a11 && a3 != a12 && a3 != a13 && a4 != a5 && a4 != a6 && a4 != a7 && a4 != a8 && a4 != a9 && a4 != a10 && a4 != a11 && a4 != a12 && a4 != a13 && a5 != a6 && a5 != a7 && a5 != a8 && a5 != a9 && a5 != a10 && a5 != a11 && a5 != a12 && a5 != a13 && a6 != a7 && a6 != a8 && a6 != a9 && a6 != a10 && a6 != a11 && a6 != a12 && a6 != a13 && a7 != a8 && a7 != a9 && a7 != a10 && a7 != a11 && a7 != a12 && a7 != a13 && a8 != a9 && a8 != a10 && a8 != a11 && a8 != a12 && a8 != a13 && a9 != a10 && a9 != a11 && a9 != a12 && a9 != a13 && a10 != a11 && a10 != a12 && a10 != a13 && a11 != a12 && a11 != a13 && a12 != a13 }
//@@impl SpongeConfig<F,PC> as SpongeConfig
    /// the columns are different from each other
    pub closed spec fn wf(&self) -> bool { apart(self.hash_table@[0].index, self.hash_table@[1].index, self.hash_table@[2].index, self.hash_table@[3].index, self.hash_table@[4].index, self.hash_table@[5].index, self.hash_table_aux@[0].index, self.hash_table_aux@[1].index, self.hash_table_aux@[2].index, self.hash_table_aux@[3].index, self.hash_table_aux@[4].index, self.hash_table_aux@[5].index, self.s_sponge_continue.index, self.control_aux.index) }
    pub closed spec fn row(&self, a: Around<F>, i: int) -> Row<F> {
        row_at(a, i, self.q_enable, self.hash_table@, self.hash_table_aux@, self.s_custom, self.s_sponge_continue, self.control_aux)
    }
    pub closed spec fn pc(&self) -> PC::Config { self.permute_config }
    pub closed spec fn range(&self) -> TableColumn { self.control_step_range }
    /// the constraints of the table part at a row
    pub closed spec fn steps(&self) -> usize { self.step }
    pub open spec fn own(&self, a: Around<F>, t: Tables<F>) -> bool {
        own_at(self.row(a, -1), self.row(a, 0), self.range(), self.steps() as int, t)
    }
//@ method configure_sub
//@ opt callback create_gate lookup
        requires forall|i: int, j: int| 0 <= i < j < 6 ==> (#[trigger] p0__.1@[i]).index != (#[trigger] p0__.1@[j]).index, forall|i: int| 0 <= i < 6 ==> (#[trigger] p0__.1@[i]).index < old(meta).advices@
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(meta).sat(a, t) == (old(meta).sat(a, t) && r.own(a, t) && PC::s_sat(r.pc(), a, t)),
            r.steps() == step, r.wf(),
//@ at begin
        reveal_with_fuel(ev, 10);
        broadcast use {super::lists, super::laws};
//@ at before-loop 0
        let ghost m0 = *meta;
//@ loop 0
            invariant *meta == m0, n0__ == 7, i0__ <= n0__, hash_table_aux@.len() == 6, hash_table@.len() == 6
            decreases n0__ - i0__
//@ loop 1
                    invariant n1__ == 2, i1__ <= n1__, v1__@.len() == i1__, state_in@.len() == 3, state_for_next_in@.len() == 2, hash_inp@.len() == 2,
                        forall|k: int, a: Around<F>| 0 <= k < i1__ ==> (#[trigger] ev(v1__@[k], a) == fzero::<F>() <==> ev(q_enable, a) == fzero::<F>()
                            || a(state_in@[k + 1].c(), 0) == fadd(fmul(a(state_for_next_in@[k].c(), -1), ev(s_continue_hash, a)), a(hash_inp@[k].c(), 0))),
                    decreases n1__ - i1__
//@ at loop-end 1
                    proof {
                        assert(state_in@.subrange(1, 3)[i1__ - 1] == state_in@[i1__ as int]);
                        assert forall|a: Around<F>| #[trigger] ev(v1__@[i1__ - 1], a) == fzero::<F>() <==> ev(q_enable, a) == fzero::<F>()
                            || a(state_in@[i1__ as int].c(), 0) == fadd(fmul(a(state_for_next_in@[i1__ - 1].c(), -1), ev(s_continue_hash, a)), a(hash_inp@[i1__ - 1].c(), 0)) by {
                            broadcast use super::laws;
                            reveal_with_fuel(ev, 6);
                            let p = a(state_for_next_in@[i1__ - 1].c(), -1);
                            let w = a(hash_inp@[i1__ - 1].c(), 0);
                            let n = a(state_in@[i1__ as int].c(), 0);
                            assert(ev(v1__@[i1__ - 1], a) == fmul(ev(q_enable, a), fsub(fadd(fmul(p, ev(s_continue_hash, a)), w), n)));
                        }
                    }
//@ at tail
        proof {
            assert forall|a: Around<F>, t: Tables<F>| #[trigger] meta.sat(a, t) == (old(meta).sat(a, t) && own_at(
                row_at(a, -1, p0__.0, p0__.1@, hash_table_aux@, s_custom, s_sponge_continue, control_aux), row_at(a, 0, p0__.0, p0__.1@, hash_table_aux@, s_custom, s_sponge_continue, control_aux), control_step_range, step as int, t)) by { reveal_with_fuel(ev, 8); broadcast use {super::lists, super::laws};
                let r = row_at::<F>(a, 0, p0__.0, p0__.1@, hash_table_aux@, s_custom, s_sponge_continue, control_aux); let p = row_at::<F>(a, -1, p0__.0, p0__.1@, hash_table_aux@, s_custom, s_sponge_continue, control_aux);
                if meta.sat(a, t) {
                    assert(old(meta).sat(a, t));
                    assert(linked(p, r, fnat::<F>((step * 0x1_0000_0000_0000_0000) as nat)));
                    assert(exists|i: int| #[trigger] is_row(i) && t(control_step_range, i) == fmul(r.mark, p.ctrl));
                }
                if old(meta).sat(a, t) && linked(p, r, fnat::<F>((step * 0x1_0000_0000_0000_0000) as nat)) && (exists|i: int| #[trigger] is_row(i) && t(control_step_range, i) == fmul(r.mark, p.ctrl)) { 
                    assert(meta.sat(a, t)); }
            }
        }
//@@end
