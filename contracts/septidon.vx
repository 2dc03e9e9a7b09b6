// ---------------------------------------------------------------- the permutation, round by round, on three words
pub struct St<F> { pub a: F, pub b: F, pub c: F }
#[verifier::opaque] pub open spec fn p5<F>(x: F) -> F { fmul(fmul(fmul(x, x), fmul(x, x)), x) }
pub open spec fn st<F>(s: Seq<F>) -> St<F> { St { a: s[0], b: s[1], c: s[2] } }
pub open spec fn l3<F>(r: Seq<F>, s: St<F>) -> F { fadd(fadd(fmul(s.a, r[0]), fmul(s.b, r[1])), fmul(s.c, r[2])) }
#[verifier::opaque] pub open spec fn lin<F>(m: Seq<Seq<F>>, s: St<F>) -> St<F> { St { a: l3(m[0], s), b: l3(m[1], s), c: l3(m[2], s) } }
pub open spec fn full_r<F>(m: Seq<Seq<F>>, k: Seq<F>, s: St<F>) -> St<F> { lin(m, St { a: p5(fadd(s.a, k[0])), b: p5(fadd(s.b, k[1])), c: p5(fadd(s.c, k[2])) }) }
/// the constant of a partial round in the first word only
pub open spec fn part_r<F>(m: Seq<Seq<F>>, k: F, s: St<F>) -> St<F> { lin(m, St { a: p5(fadd(s.a, k)), b: s.b, c: s.c }) }
pub open spec fn rows<F, const T: usize>(m: Seq<[F; T]>) -> Seq<Seq<F>> { Seq::new(m.len(), |i: int| m[i]@) }
/// four full rounds, 57 partial ones, four full ones
pub open spec fn st_at<F>(m: Seq<Seq<F>>, rc: Seq<Seq<F>>, s: St<F>, n: int) -> St<F> decreases n {
    if n <= 0 { s } else if n - 1 < 4 || n - 1 >= 61 { full_r(m, rc[n - 1], st_at(m, rc, s, n - 1)) } else { part_r(m, rc[n - 1][0], st_at(m, rc, s, n - 1)) }
}
pub type Mds<F> = [[F; 3]; 3];
/// the constants of a field: 65 rounds, in the form where partial rounds add to the first word only (C07)
pub trait CachedConstants: PrimeField {
    spec fn s_rc() -> Seq<Seq<Self>>;
    spec fn s_mds() -> Seq<Seq<Self>>;
    fn cached_round_constants() -> (r: &'static [[Self; 3]]) ensures r@.len() == 65, rows(r@) == Self::s_rc();
    fn cached_mds() -> (r: &'static Mds<Self>) ensures rows(r@) == Self::s_mds();
}
#[verifier::external_body] pub fn array_to_vec<X, const N: usize>(x: [X; N]) -> (r: Vec<X>) ensures r@ == x@ { unimplemented!() }
pub fn sized<X, const N: usize>(x: &[X; N]) -> (r: &[X; N]) ensures r == x { x }
pub open spec fn evs<F>(e: Seq<Expression<F>>, a: Around<F>) -> St<F> { St { a: ev(e[0], a), b: ev(e[1], a), c: ev(e[2], a) } }
/// the state behind three values
pub open spec fn vst<F>(s: Seq<Value<F>>) -> St<F> { St { a: s[0].v->0, b: s[1].v->0, c: s[2].v->0 } }
pub open spec fn known<F>(s: Seq<Value<F>>) -> bool { s.len() == 3 && s[0].v is Some && s[1].v is Some && s[2].v is Some }
pub type Contents<F> = spec_fn(Col, int) -> Option<F>;
/// n is m with the cells of w assigned
pub open spec fn over<F>(m: Contents<F>, n: Contents<F>, w: Contents<F>) -> bool { forall|x: Col, y: int| #[trigger] n(x, y) == (if w(x, y) is Some { w(x, y) } else { m(x, y) }) }
/// constraints and tables are the same, at least as many columns
pub open spec fn grown<F: Field>(m: ConstraintSystem<F>, n: ConstraintSystem<F>) -> bool {
    n.advices@ >= m.advices@ && n.fixeds@ >= m.fixeds@ && n.selectors == m.selectors && n.tables == m.tables
}
pub open spec fn same_sat<F: Field>(m: ConstraintSystem<F>, n: ConstraintSystem<F>) -> bool { forall|a: Around<F>, t: Tables<F>| #[trigger] n.sat(a, t) == m.sat(a, t) }
//@@file poseidon-base/src/params.rs
//@@fn round_constant
    requires index < 65
    ensures r@ == F::s_rc()[index as int]
//@@end
//@@fn mds
    ensures rows(r@) == F::s_mds()
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/util.rs
//@@inline query
//@@inline map_array
//@@fn pow_5__expr
    ensures forall|a: Around<F>| #[trigger] ev(r, a) == p5(ev(v, a))
//@ at begin
        reveal(p5); reveal_with_fuel(ev, 6);
        broadcast use {super::ring};
//@@end
//@@fn pow_5__value
    ensures r == p5(v)
//@ at begin
        reveal(p5);
        broadcast use {super::ring};
//@@end
//@@fn matmul__expr
//@ opt expand
    ensures forall|a: Around<F>| #![trigger evs(r@, a)] #![trigger ev(r@[0], a)] #![trigger ev(r@[1], a)] #![trigger ev(r@[2], a)] evs(r@, a) == lin(rows(matrix@), evs(vector@, a))
//@ at begin
        reveal(lin); reveal_with_fuel(ev, 6);
        broadcast use {super::ring};
//@@end
//@@fn matmul__value
//@ opt expand
    ensures st(r@) == lin(rows(matrix@), st(vector@))
//@ at begin
        reveal(lin);
        broadcast use {super::ring};
//@@end
//@@fn join_values
//@ opt expand
    requires known(values@)
    ensures r.v is Some, st((r.v->0)@) == vst(values@)
//@@end
//@@fn split_values
//@ opt expand
    requires values.v is Some
    ensures known(r@), vst(r@) == st((values.v->0)@)
//@@end
/// b * x + (1 - b) * y
pub open spec fn pick<F>(b: F, x: F, y: F) -> F { fadd(fmul(b, x), fmul(fsub(fone(), b), y)) }
//@@fn select__expr
    ensures forall|a: Around<F>| #[trigger] ev(r, a) == pick(ev(selector, a), ev(when_true, a), ev(when_false, a))
//@ at begin
        reveal_with_fuel(ev, 5);
        broadcast use {super::ring};
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/params.rs
//@@const GATE_DEGREE_5
//@@fn sbox__expr
//@ opt expand
    ensures forall|a: Around<F>| #[trigger] ev(r, a) == p5(fadd(ev(input, a), ev(round_constant, a)))
//@@end
//@@fn sbox__value
//@ opt expand
    ensures r == p5(fadd(input, round_constant))
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/state.rs
//@@struct Cell public
impl Clone for Cell { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn at_cells<F>(c: Seq<Cell>, a: Around<F>, o: int) -> St<F> { St { a: c[0].v(a, o), b: c[1].v(a, o), c: c[2].v(a, o) } }
//@@impl Cell as Cell
    pub open spec fn v<F>(self, a: Around<F>, o: int) -> F { a(self.column.c(), self.offset + o) }
//@ method configure
        ensures r.offset == 0, r.column.index == old(cs).advices@, final(cs).advices@ == old(cs).advices@ + 1, final(cs).fixeds == old(cs).fixeds, grown(*old(cs), *final(cs)), old(cs).same_but_columns(final(cs))
//@ method new
        ensures r.column == column, r.offset == offset
//@ method rotated
        requires -1000 <= self.offset <= 1000, -1000 <= offset <= 1000
        ensures r.column == self.column, r.offset == self.offset + offset
//@ method query
        requires -1000 <= self.offset <= 1000, -1000 <= offset <= 1000
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #[trigger] ev(r, a) == self.v(a, offset as int)
//@ method region_offset
        requires self.offset >= 0
        ensures r == self.offset
//@ method assign
        requires input.v is Some, origin_offset <= 0x4000_0000, -1000 <= self.offset <= 1000, origin_offset + self.offset >= 0
        ensures r is Ok ==> put(old(region).cells@, final(region).cells@, self.column.c(), origin_offset + self.offset, input.v->0) && final(region).tag == old(region).tag
//@@end
//@@struct SBox public
//@@impl SBox as SBox
    pub open spec fn rcol(self) -> Column<Fixed> { self.round_constant }
    pub open spec fn inp<F>(self, a: Around<F>, o: int) -> F { self.input.v(a, o) }
    pub open spec fn rc<F>(self, a: Around<F>) -> F { a(self.rcol().c(), self.input.offset as int) }
    pub open spec fn w<F>(self, o: int, k: F, s: F) -> Contents<F> { |x: Col, y: int| if y != o { None } else if x == self.input.column.c() { Some(s) } else if x == self.rcol().c() { Some(k) } else { None } }
    pub open spec fn out<F>(self, a: Around<F>) -> F { p5(fadd(self.inp(a, 0), self.rc(a))) }
//@ method configure
        ensures r.input.offset == 0, r.input.column.index == old(cs).advices@, final(cs).advices@ == old(cs).advices@ + 1, r.rcol().index == old(cs).fixeds@, final(cs).fixeds@ == old(cs).fixeds@ + 1, grown(*old(cs), *final(cs)), old(cs).same_but_columns(final(cs))
//@ method input_expr
        requires -1000 <= self.input.offset <= 1000
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #[trigger] ev(r, a) == self.inp(a, 0)
//@ method rc_expr
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #[trigger] ev(r, a) == self.rc(a)
//@ method output_expr
//@ opt expand
        requires -1000 <= self.input.offset <= 1000
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #[trigger] ev(r, a) == self.out(a)
//@ method assign
//@ opt expand
        requires self.input.offset == 0, input.v is Some, offset <= 0x4000_0000
        ensures r is Ok ==> (r->Ok_0).v == Some(p5(fadd(input.v->0, round_constant))) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.w(offset as int, round_constant, input.v->0))
//@@end
//@@struct FullState public
//@@inline FullState::map
//@@impl FullState as FullState
    pub open spec fn zero(self) -> bool { self.0@[0].input.offset == 0 && self.0@[1].input.offset == 0 && self.0@[2].input.offset == 0 }
    pub open spec fn ins<F>(self, a: Around<F>, o: int) -> St<F> { St { a: self.0@[0].inp(a, o), b: self.0@[1].inp(a, o), c: self.0@[2].inp(a, o) } }
    pub open spec fn rcs<F>(self, a: Around<F>) -> Seq<F> { seq![self.0@[0].rc(a), self.0@[1].rc(a), self.0@[2].rc(a)] }
//@ method configure
        ensures r.zero(), r.from(old(cs).advices@, old(cs).fixeds@), final(cs).advices@ == old(cs).advices@ + 3, final(cs).fixeds@ == old(cs).fixeds@ + 3, grown(*old(cs), *final(cs)), old(cs).same_but_columns(final(cs))
//@@end
impl FullState {
    /// the columns are the ones from these numbers on
    pub open spec fn from(self, a: nat, f: nat) -> bool {
        self.0@[0].input.column.index == a && self.0@[1].input.column.index == a + 1 && self.0@[2].input.column.index == a + 2
        && self.0@[0].rcol().index == f && self.0@[1].rcol().index == f + 1 && self.0@[2].rcol().index == f + 2
    }
}
//@@file poseidon-circuit/src/poseidon/septidon/loop_chip.rs
//@@struct LoopChip public
//@@struct LoopBody public
pub open spec fn loop_ok<F>(q: F, b: F, out: St<F>, next: St<F>, body: St<F>) -> bool { q == fzero::<F>() || (pick(b, out.a, next.a) == body.a && pick(b, out.b, next.b) == body.b && pick(b, out.c, next.c) == body.c) }
//@@impl LoopChip as LoopChip
//@ method configure
//@ opt expand
//@ opt callback create_gate
        requires forall|i: int| 0 <= i < 3 ==> -1000 <= (#[trigger] output@[i]).offset <= 1000
        ensures final(cs).advices == old(cs).advices, final(cs).fixeds == old(cs).fixeds, grown(*old(cs), *final(cs)),
            forall|a: Around<F>, t: Tables<F>| #[trigger] final(cs).sat(a, t) == (old(cs).sat(a, t) && loop_ok(ev(q, a), ev(break_signal, a), at_cells(output@, a, 0), evs(body.next_state@, a), evs(body.output@, a)))
//@ at begin
        broadcast use {super::vanish_short, super::vanish_selected, super::f_sub_eq, super::ev_sub};
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/full_round.rs
//@@struct FullRoundChip public
//@@impl FullRoundChip as FullRoundChip
    pub open spec fn w<F>(self, o: int, k: Seq<F>, s: St<F>) -> Contents<F> {
        let f = self.0.0@;
        |x: Col, y: int| if y != o { None }
            else if x == f[0].input.column.c() { Some(s.a) } else if x == f[1].input.column.c() { Some(s.b) } else if x == f[2].input.column.c() { Some(s.c) }
            else if x == f[0].rcol().c() { Some(k[0]) } else if x == f[1].rcol().c() { Some(k[1]) } else if x == f[2].rcol().c() { Some(k[2]) } else { None }
    }
//@ method configure
//@ opt expand
//@ opt callback create_gate
        ensures r.0.0.zero(), r.0.0.from(old(cs).advices@, old(cs).fixeds@), final(cs).advices@ == old(cs).advices@ + 3, final(cs).fixeds@ == old(cs).fixeds@ + 3, grown(*old(cs), *final(cs)), same_sat(*old(cs), *final(cs)),
            forall|a: Around<F>| #[trigger] evs(r.1.next_state@, a) == r.0.0.ins(a, 1),
            forall|a: Around<F>| #[trigger] evs(r.1.output@, a) == full_r(F::s_mds(), r.0.0.rcs(a), r.0.0.ins(a, 0)),
//@ at begin
        broadcast use {super::vanish_short};
//@ method full_round_expr
//@ opt expand
        requires self.0.zero()
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #![trigger evs(r@, a)] #![trigger ev(r@[0], a)] #![trigger ev(r@[1], a)] #![trigger ev(r@[2], a)] evs(r@, a) == full_r(F::s_mds(), self.0.rcs(a), self.0.ins(a, 0))
//@ method input_cells
//@ opt expand
        ensures forall|i: int| 0 <= i < 3 ==> #[trigger] r@[i] == self.0.0@[i].input
//@ method assign
//@ opt expand
        requires self.0.zero(), known(input@), offset <= 0x4000_0000, self.0.from(self.0.0@[0].input.column.index as nat, self.0.0@[0].rcol().index as nat)
        ensures r is Ok ==> known((r->Ok_0)@) && vst((r->Ok_0)@) == full_r(F::s_mds(), round_constants@, vst(input@)) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.w(offset as int, round_constants@, vst(input@)))
//@@end
/// n partial rounds
pub open spec fn parts<F>(m: Seq<Seq<F>>, k: Seq<F>, s: St<F>, n: int) -> St<F> decreases n { if n <= 0 { s } else { part_r(m, k[n - 1], parts(m, k, s, n - 1)) } }
//@@file poseidon-circuit/src/poseidon/septidon/septuple_round.rs
//@@struct SeptupleRoundChip public
//@@impl SeptupleRoundChip as SeptupleRoundChip
    pub open spec fn w<F>(self, o: int, m: Seq<Seq<F>>, k: Seq<F>, s: St<F>) -> Contents<F> {
        let f = self.following_sboxes@;
        |x: Col, y: int| if y != o { None }
            else if x == self.first_sbox.input.column.c() { Some(s.a) } else if x == self.first_linears@[0].column.c() { Some(s.b) } else if x == self.first_linears@[1].column.c() { Some(s.c) }
            else if x == f[0].input.column.c() { Some(parts(m, k, s, 1).a) } else if x == f[1].input.column.c() { Some(parts(m, k, s, 2).a) } else if x == f[2].input.column.c() { Some(parts(m, k, s, 3).a) }
            else if x == f[3].input.column.c() { Some(parts(m, k, s, 4).a) } else if x == f[4].input.column.c() { Some(parts(m, k, s, 5).a) } else if x == f[5].input.column.c() { Some(parts(m, k, s, 6).a) }
            else if x == self.first_sbox.rcol().c() { Some(k[0]) } else if x == f[0].rcol().c() { Some(k[1]) } else if x == f[1].rcol().c() { Some(k[2]) } else if x == f[2].rcol().c() { Some(k[3]) }
            else if x == f[3].rcol().c() { Some(k[4]) } else if x == f[4].rcol().c() { Some(k[5]) } else if x == f[5].rcol().c() { Some(k[6]) } else { None }
    }
    pub open spec fn zero(self) -> bool {
        self.first_sbox.input.offset == 0 && (forall|i: int| 0 <= i < 2 ==> (#[trigger] self.first_linears@[i]).offset == 0) && forall|i: int| 0 <= i < 6 ==> (#[trigger] self.following_sboxes@[i]).input.offset == 0
    }
    pub open spec fn from(self, a: nat, f: nat) -> bool {
        self.first_sbox.input.column.index == a && self.first_sbox.rcol().index == f && self.first_linears@[0].column.index == a + 1 && self.first_linears@[1].column.index == a + 2
        && forall|i: int| 0 <= i < 6 ==> (#[trigger] self.following_sboxes@[i]).input.column.index == a + 3 + i && self.following_sboxes@[i].rcol().index == f + 1 + i
    }
    pub open spec fn ins<F>(self, a: Around<F>, o: int) -> St<F> { St { a: self.first_sbox.inp(a, o), b: self.first_linears@[0].v(a, o), c: self.first_linears@[1].v(a, o) } }
    pub open spec fn sbox(self, i: int) -> SBox { if i == 0 { self.first_sbox } else { self.following_sboxes@[i - 1] } }
    /// the state after n rounds, as the constraints compute it
    pub open spec fn chain<F>(self, m: Seq<Seq<F>>, a: Around<F>, n: int) -> St<F> decreases n {
        if n <= 0 { self.ins(a, 0) } else { let p = self.chain(m, a, n - 1); lin(m, St { a: self.sbox(n - 1).out(a), b: p.b, c: p.c }) }
    }
    /// every s-box input is the first word of the state before it
    pub open spec fn linked<F>(self, m: Seq<Seq<F>>, a: Around<F>) -> bool {
        self.chain(m, a, 1).a == self.sbox(1).inp(a, 0) && self.chain(m, a, 2).a == self.sbox(2).inp(a, 0) && self.chain(m, a, 3).a == self.sbox(3).inp(a, 0)
        && self.chain(m, a, 4).a == self.sbox(4).inp(a, 0) && self.chain(m, a, 5).a == self.sbox(5).inp(a, 0) && self.chain(m, a, 6).a == self.sbox(6).inp(a, 0)
    }
//@ method configure
//@ opt expand
//@ opt callback create_gate
//@ opt array chip.following_sboxes 6
        ensures r.0.zero(), r.0.from(old(cs).advices@, old(cs).fixeds@), final(cs).advices@ == old(cs).advices@ + 9, final(cs).fixeds@ == old(cs).fixeds@ + 7, grown(*old(cs), *final(cs)),
            forall|a: Around<F>| #[trigger] evs(r.1.next_state@, a) == r.0.ins(a, 1),
            forall|a: Around<F>| #[trigger] evs(r.1.output@, a) == r.0.chain(F::s_mds(), a, 7),
            forall|a: Around<F>, t: Tables<F>| #[trigger] final(cs).sat(a, t) == (old(cs).sat(a, t) && (ev(q, a) == fzero::<F>() || r.0.linked(F::s_mds(), a))),
//@ at begin
        broadcast use {super::vanish_short, super::vanish_selected, super::f_sub_eq, super::ev_sub};
        reveal_with_fuel(SeptupleRoundChip::chain, 8);
//@ method partial_round_expr
        requires -1000 <= sbox.input.offset <= 1000
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #![trigger evs(r@, a)] #![trigger ev(r@[0], a)] #![trigger ev(r@[1], a)] #![trigger ev(r@[2], a)] evs(r@, a) == lin(F::s_mds(), St { a: sbox.out(a), b: ev(input@[1], a), c: ev(input@[2], a) })
//@ opt expand
//@ method input
        ensures r@[0] == self.first_sbox.input, r@[1] == self.first_linears@[0], r@[2] == self.first_linears@[1]
//@ method assign
//@ opt expand
//@ opt array self.following_sboxes 6
        requires self.zero(), known(input@), round_constants@.len() == 7, offset <= 0x4000_0000, self.from(self.first_sbox.input.column.index as nat, self.first_sbox.rcol().index as nat)
        ensures r is Ok ==> known((r->Ok_0)@) && vst((r->Ok_0)@) == parts(F::s_mds(), round_constants@, vst(input@), 7) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.w(offset as int, F::s_mds(), round_constants@, vst(input@)))
//@ at begin
        reveal_with_fuel(parts, 8);
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/transition_round.rs
//@@struct TransitionRoundChip public
//@@impl TransitionRoundChip as TransitionRoundChip
    pub open spec fn w<F: Field>(self, o: int, s: St<F>) -> Contents<F> {
        |x: Col, y: int| if x != self.column.c() { None } else if y == o - 3 { Some(fzero::<F>()) } else if y == o - 2 { Some(s.a) } else if y == o - 1 { Some(s.b) } else if y == o { Some(s.c) } else { None }
    }
    pub open spec fn ins<F>(self, a: Around<F>, o: int) -> St<F> { St { a: a(self.column.c(), o - 2), b: a(self.column.c(), o - 1), c: a(self.column.c(), o) } }
//@ method configure
//@ opt callback create_gate
        requires forall|i: int| 0 <= i < 3 ==> (#[trigger] next_state@[i]).offset == 0
        ensures r.column.index == old(cs).advices@, final(cs).advices@ == old(cs).advices@ + 1, final(cs).fixeds == old(cs).fixeds, grown(*old(cs), *final(cs)),
            forall|a: Around<F>, t: Tables<F>| #[trigger] final(cs).sat(a, t) == (old(cs).sat(a, t) && (ev(signal, a) == fzero::<F>() || at_cells(next_state@, a, -3) == part_r(F::s_mds(), F::s_rc()[4][0], r.ins(a, 0)))),
//@ at begin
        broadcast use {super::vanish_short, super::vanish_selected, super::f_sub_eq, super::ev_sub};
//@ method first_partial_round_expr
//@ opt expand
        ensures forall|a: Around<F>| #![trigger evs(r@, a)] #![trigger ev(r@[0], a)] #![trigger ev(r@[1], a)] #![trigger ev(r@[2], a)] evs(r@, a) == part_r(F::s_mds(), F::s_rc()[4][0], evs(input@, a))
//@ method round_constant
        ensures r == F::s_rc()[4][0]
//@ method input
        ensures r@[0] == (Cell { column: self.column, offset: -2i32 }), r@[1] == (Cell { column: self.column, offset: -1i32 }), r@[2] == (Cell { column: self.column, offset: 0 })
//@ method helper_cell
        ensures r == (Cell { column: self.column, offset: -3i32 })
//@ method assign_first_partial_state
//@ opt expand
//@ opt array input 3 copy
//@ opt array self.input() 3
        requires known(input@), 3 <= middle_break_offset <= 0x4000_0000
        ensures r is Ok ==> known((r->Ok_0)@) && vst((r->Ok_0)@) == part_r(F::s_mds(), F::s_rc()[4][0], vst(input@)) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.w(middle_break_offset as int, vst(input@)))
//@ method first_partial_round
//@ opt expand
        requires known(input@)
        ensures known(r@), vst(r@) == part_r(F::s_mds(), F::s_rc()[4][0], vst(input@))
//@ method assign_final_state
//@ opt expand
//@ opt array input 3 copy
//@ opt array self.input() 3
        requires known(input@), 3 <= final_break_offset <= 0x4000_0000
        ensures r is Ok ==> final(region).tag == old(region).tag && over(old(region).cells@, final(region).cells@, self.w(final_break_offset as int, vst(input@)))
//@@end
//@@file poseidon-circuit/src/poseidon/septidon/control.rs
//@@struct ControlChip public
//@@struct ControlSignals public
//@@impl ControlChip as ControlChip
    pub open spec fn mark<F>(self, a: Around<F>, o: int) -> F { a(self.is_last.c(), o) }
    /// the sum of the marks of this row and the seven below
    pub open spec fn sel<F>(self, a: Around<F>) -> F { fadd(fadd(fadd(fadd(fadd(fadd(fadd(self.mark(a, 0), self.mark(a, 1)), self.mark(a, 2)), self.mark(a, 3)), self.mark(a, 4)), self.mark(a, 5)), self.mark(a, 6)), self.mark(a, 7)) }
//@ method configure
//@ opt expand
//@ opt callback create_gate
        ensures r.0.is_last.index == old(cs).fixeds@, final(cs).fixeds@ == old(cs).fixeds@ + 1, final(cs).advices == old(cs).advices, grown(*old(cs), *final(cs)), same_sat(*old(cs), *final(cs)),
            forall|a: Around<F>| #[trigger] ev(r.1.break_full_rounds, a) == fadd(r.0.mark(a, 4), r.0.mark(a, 0)),
            forall|a: Around<F>| #[trigger] ev(r.1.transition_round, a) == r.0.mark(a, 4),
            forall|a: Around<F>| #[trigger] ev(r.1.break_partial_rounds, a) == r.0.mark(a, 0),
            forall|a: Around<F>| #[trigger] ev(r.1.selector, a) == r.0.sel(a),
//@ at begin
        broadcast use {super::vanish_short, super::ring};
        reveal_with_fuel(ev, 4);
//@ method derive_selector
//@ opt expand
        ensures *final(meta) == *old(meta), forall|a: Around<F>| #[trigger] ev(r, a) == r__sel(is_last, a)
//@ at begin
        reveal_with_fuel(ev, 10);
        broadcast use {super::ring};
//@ method assign
        ensures r is Ok ==> put(old(region).cells@, final(region).cells@, self.is_last.c(), 7, fone::<F>()) && final(region).tag == old(region).tag
//@ method assign_with_offset
        requires begin_offset <= 0x4000_0000
        ensures r is Ok ==> put(old(region).cells@, final(region).cells@, self.is_last.c(), begin_offset + 7, fone::<F>()) && final(region).tag == old(region).tag
//@@end
pub open spec fn r__sel<F>(is_last: Column<Fixed>, a: Around<F>) -> F { (ControlChip { is_last }).sel(a) }
pub open spec fn full_rc<F: CachedConstants>(i: int, j: int) -> F { F::s_rc()[if i < 4 { i } else { i + 57 }][j] }
pub open spec fn part_rc<F: CachedConstants>(i: int, k: int) -> F { F::s_rc()[5 + 7 * i + k][0] }
pub open spec fn perm3<F: CachedConstants>(s: St<F>, n: int) -> St<F> { st_at(F::s_mds(), F::s_rc(), s, n) }
pub open spec fn nth<F>(s: St<F>, i: int) -> F { if i == 0 { s.a } else if i == 1 { s.b } else { s.c } }
/// parts of a column of the chip
pub enum Role { Full(int), FullConst(int), Part(int), PartConst(int), Linear(int), Mid, Mark, Other }
/// seven partial rounds at once
proof fn parts_are<F: CachedConstants>(s: St<F>, k: Seq<F>, i: int, n: int)
    requires 0 <= i < 8, 0 <= n <= 7, k.len() == 7, forall|j: int| 0 <= j < 7 ==> #[trigger] k[j] == part_rc::<F>(i, j)
    ensures parts(F::s_mds(), k, perm3(s, 5 + 7 * i), n) == perm3(s, 5 + 7 * i + n)
    decreases n
{
    if n > 0 { parts_are(s, k, i, n - 1); assert(k[n - 1] == part_rc::<F>(i, n - 1)); }
}
/// what a row of partial rounds writes is what the row holds
proof fn part_row<F: CachedConstants>(ch: SeptidonChip, s: St<F>, k: Seq<F>, b: int, i: int, x: Col)
    requires ch.wf(), 0 <= i < 8, k.len() == 7, forall|j: int| 0 <= j < 7 ==> #[trigger] k[j] == part_rc::<F>(i, j)
    ensures ch.partial_round_chip.w(i + b, F::s_mds(), k, perm3(s, 5 + 7 * i))(x, i + b) == (if ch.done(x, i, 0, 8, 0) && !(ch.role(x) is Mark) { ch.cell_of(s, x, i) } else { None })
{
    parts_are(s, k, i, 1); parts_are(s, k, i, 2); parts_are(s, k, i, 3); parts_are(s, k, i, 4); parts_are(s, k, i, 5); parts_are(s, k, i, 6);
    let p = ch.partial_round_chip;
    let f = p.following_sboxes@;
    let (t0, t1, t2, t3, t4, t5) = (f[0], f[1], f[2], f[3], f[4], f[5]);
    match x { Col::Advice(c) => {}, Col::Fixed(c) => {}, Col::Selector(c) => {} }
}
//@@file poseidon-circuit/src/poseidon/septidon/septidon_chip.rs
//@@struct SeptidonChip public
//@@impl SeptidonChip as SeptidonChip
    pub open spec fn fa(self) -> nat { self.full_round_chip.0.0@[0].input.column.index as nat }
    pub open spec fn ff(self) -> nat { self.full_round_chip.0.0@[0].rcol().index as nat }
    pub open spec fn pa(self) -> nat { self.partial_round_chip.first_sbox.input.column.index as nat }
    pub open spec fn pf(self) -> nat { self.partial_round_chip.first_sbox.rcol().index as nat }
    pub open spec fn ta(self) -> nat { self.transition_chip.column.index as nat }
    pub open spec fn cf(self) -> nat { self.control_chip.is_last.index as nat }
    /// every cell has its own column, and is in the row of its owner
    pub open spec fn wf(self) -> bool {
        self.full_round_chip.0.zero() && self.partial_round_chip.zero() && self.full_round_chip.0.from(self.fa(), self.ff()) && self.partial_round_chip.from(self.pa(), self.pf())
        && (self.fa() + 3 <= self.pa() || self.pa() + 9 <= self.fa()) && (self.ff() + 3 <= self.pf() || self.pf() + 7 <= self.ff())
        && !(self.fa() <= self.ta() < self.fa() + 3) && !(self.pa() <= self.ta() < self.pa() + 9) && !(self.ff() <= self.cf() < self.ff() + 3) && !(self.pf() <= self.cf() < self.pf() + 7)
    }
    pub open spec fn role(self, x: Col) -> Role {
        match x {
            Col::Advice(i) => if self.fa() <= i < self.fa() + 3 { Role::Full(i - self.fa()) } else if i == self.pa() { Role::Part(0) } else if self.pa() < i < self.pa() + 3 { Role::Linear(i - self.pa()) }
                else if self.pa() + 3 <= i < self.pa() + 9 { Role::Part(i - self.pa() - 2) } else if i == self.ta() { Role::Mid } else { Role::Other },
            Col::Fixed(i) => if self.ff() <= i < self.ff() + 3 { Role::FullConst(i - self.ff()) } else if self.pf() <= i < self.pf() + 7 { Role::PartConst(i - self.pf()) } else if i == self.cf() { Role::Mark } else { Role::Other },
            Col::Selector(i) => Role::Other,
        }
    }
    /// what row i of a permutation of s holds
    pub open spec fn cell_of<F: CachedConstants>(self, s: St<F>, x: Col, i: int) -> Option<F> {
        match self.role(x) {
            Role::Full(j) => Some(nth(perm3(s, if i < 4 { i } else { i + 57 }), j)),
            Role::FullConst(j) => Some(full_rc::<F>(i, j)),
            Role::Part(k) => Some(perm3(s, 5 + 7 * i + k).a),
            Role::PartConst(k) => Some(part_rc::<F>(i, k)),
            Role::Linear(j) => Some(nth(perm3(s, 5 + 7 * i), j)),
            Role::Mid => Some(if i == 0 || i == 4 { fzero::<F>() } else if i < 4 { nth(perm3(s, 4), i - 1) } else { nth(perm3(s, 65), i - 5) }),
            Role::Mark => if i == 7 { Some(fone::<F>()) } else { None },
            Role::Other => None,
        }
    }
    /// the cells of a permutation of s whose first row is b
    pub open spec fn wit<F: CachedConstants>(self, s: St<F>, b: int) -> Contents<F> { |x: Col, y: int| if 0 <= y - b < 8 { self.cell_of(s, x, y - b) } else { None } }
    /// whether the first f rows of full rounds, p rows of partial rounds and t rows of the transition cover a cell
    pub open spec fn done(self, x: Col, i: int, f: int, p: int, t: int) -> bool {
        match self.role(x) {
            Role::Full(j) => 0 <= i < f, Role::FullConst(j) => 0 <= i < f,
            Role::Part(k) => 0 <= i < p, Role::PartConst(k) => 0 <= i < p, Role::Linear(j) => 0 <= i < p,
            Role::Mid => 0 <= i < t, Role::Mark => i == 7, Role::Other => false,
        }
    }
    pub open spec fn upto<F: CachedConstants>(self, m: Contents<F>, n: Contents<F>, s: St<F>, b: int, f: int, p: int, t: int) -> bool {
        forall|x: Col, y: int| #[trigger] n(x, y) == (if self.done(x, y - b, f, p, t) { self.cell_of(s, x, y - b) } else { m(x, y) })
    }
    pub open spec fn full<F>(self, a: Around<F>, o: int) -> St<F> { self.full_round_chip.0.ins(a, o) }
    pub open spec fn part<F>(self, a: Around<F>, o: int) -> St<F> { self.partial_round_chip.ins(a, o) }
    pub open spec fn mid<F>(self, a: Around<F>) -> St<F> { self.transition_chip.ins(a, 0) }
    pub open spec fn mark<F>(self, a: Around<F>, o: int) -> F { self.control_chip.mark(a, o) }
    /// what the constraints say about a row
    pub open spec fn own<F: CachedConstants>(self, a: Around<F>) -> bool {
        let (m, q) = (F::s_mds(), self.control_chip.sel(a));
        &&& loop_ok(q, fadd(self.mark(a, 4), self.mark(a, 0)), self.mid(a), self.full(a, 1), full_r(m, self.full_round_chip.0.rcs(a), self.full(a, 0)))
        &&& q == fzero::<F>() || self.partial_round_chip.linked(m, a)
        &&& self.mark(a, 4) == fzero::<F>() || self.part(a, -3) == part_r(m, F::s_rc()[4][0], self.mid(a))
        &&& loop_ok(q, self.mark(a, 0), self.full(a, -3), self.part(a, 1), self.partial_round_chip.chain(m, a, 7))
    }
//@ method configure
//@ opt expand
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(cs).sat(a, t) == (old(cs).sat(a, t) && r.own(a)), r.wf(), grown(*old(cs), *final(cs))
//@ method height_per_permutation
        ensures r == 8
//@ method final_offset
        ensures r == 7
//@ method initial_state_cells
        ensures forall|i: int| 0 <= i < 3 ==> #[trigger] r@[i] == self.full_round_chip.0.0@[i].input
//@ method final_state_cells
//@ opt expand
        ensures forall|i: int| 0 <= i < 3 ==> #[trigger] r@[i] == (Cell { column: self.transition_chip.column, offset: (i + 5) as i32 })
//@ method assign_permutation
        requires self.wf(), known(initial_state@)
        ensures r is Ok ==> known((r->Ok_0)@) && vst((r->Ok_0)@) == perm3(vst(initial_state@), 65) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.wit(vst(initial_state@), 0))
//@ method assign_permutation_with_offset
//@ opt expand keep loops
        requires self.wf(), known(initial_state@), begin_offset <= 0x3fff_0000
        ensures r is Ok ==> known((r->Ok_0)@) && vst((r->Ok_0)@) == perm3(vst(initial_state@), 65) && final(region).tag == old(region).tag
            && over(old(region).cells@, final(region).cells@, self.wit(vst(initial_state@), begin_offset as int))
//@ at begin
        let ghost (s0, b, m) = (vst(initial_state@), begin_offset as int, region.cells@);
        let ghost tag0 = region.tag;
//@ loop 0
            invariant self.wf(), begin_offset <= 0x3fff_0000, b == begin_offset, known(state@), n0__ == 4, i0__ <= n0__, vst(state@) == perm3(s0, i0__ as int), region.tag == tag0, self.upto(m, region.cells@, s0, b, i0__ as int, 0, 0)
            decreases n0__ - i0__
//@ loop 1
            invariant self.wf(), begin_offset <= 0x3fff_0000, b == begin_offset, known(state@), n1__ == 8, i1__ <= n1__, vst(state@) == perm3(s0, 5 + 7 * i1__), region.tag == tag0, self.upto(m, region.cells@, s0, b, 4, i1__ as int, 4)
            decreases n1__ - i1__
//@ at loop-begin 1
        let ghost m1 = region.cells@;
        let ghost st1 = vst(state@);
//@ at loop-end 1
        proof {
            assert forall|x: Col, y: int| #[trigger] region.cells@(x, y) == (if self.done(x, y - b, 4, offset + 1, 4) { self.cell_of(s0, x, y - b) } else { m(x, y) }) by {
                part_row(*self, s0, round_constants@, b, offset as int, x);
                assert(m1(x, y) == (if self.done(x, y - b, 4, offset as int, 4) { self.cell_of(s0, x, y - b) } else { m(x, y) }));
            }
        }
        proof { parts_are::<F>(s0, round_constants@, offset as int, 7); }
//@ loop 2
            invariant n2__ == 7, i2__ <= n2__, round_index == 5 + 7 * offset, offset < 8, v2__@.len() == i2__, forall|k: int| 0 <= k < i2__ ==> #[trigger] v2__@[k] == part_rc::<F>(offset as int, k)
            decreases n2__ - i2__
//@ loop 3
            invariant self.wf(), begin_offset <= 0x3fff_0000, b == begin_offset, known(state@), n3__ == 4, i3__ <= n3__, vst(state@) == perm3(s0, 61 + i3__), region.tag == tag0, self.upto(m, region.cells@, s0, b, 4 + i3__, 8, 4)
            decreases n3__ - i3__
//@@end
