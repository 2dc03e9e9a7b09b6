#[verifier::opaque] pub open spec fn p5<F>(x: F) -> F { fmul(fmul(fmul(x, x), fmul(x, x)), x) }
pub broadcast proof fn p5_steps<F: Field>(x: F) ensures #[trigger] fmul(fmul(fmul(fmul(x, x), x), x), x) == p5(x) {
    reveal(p5);
    assert(fmul(fmul(fmul(x, x), x), x) == fmul(fmul(x, x), fmul(x, x))) by { super::f_mul_assoc(fmul(x, x), x, x); }
}
pub open spec fn rows<F, const T: usize>(m: Seq<[F; T]>) -> Seq<Seq<F>> { Seq::new(m.len(), |i: int| m[i]@) }
pub type Mds<F, const T: usize> = [[F; T]; T];
pub trait Spec<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>: Sized {
    spec fn s_full_rounds() -> nat;
    spec fn s_partial_rounds() -> nat;
    spec fn s_rc() -> Seq<Seq<F>>;
    spec fn s_mds() -> Seq<Seq<F>>;
    spec fn s_inv() -> Seq<Seq<F>>;
    fn full_rounds() -> (r: usize) ensures r == Self::s_full_rounds();
    fn partial_rounds() -> (r: usize) ensures r == Self::s_partial_rounds();
    fn constants() -> (r: (Vec<[F; T]>, Mds<F, T>, Mds<F, T>)) ensures rows(r.0@) == Self::s_rc(), rows(r.1@) == Self::s_mds(), rows(r.2@) == Self::s_inv();
}
impl From<Column<Advice>> for Column<Any> { #[verifier::external_body] fn from(c: Column<Advice>) -> Self { unimplemented!() } }
impl From<Column<Fixed>> for Column<Any> { #[verifier::external_body] fn from(c: Column<Fixed>) -> Self { unimplemented!() } }
// ---------------------------------------------------------------- the published permutation
pub open spec fn dot<F>(a: Seq<F>, b: Seq<F>, n: nat) -> F decreases n {
    if n == 0 { fzero() } else { fadd(dot(a, b, (n - 1) as nat), fmul(a[n - 1], b[n - 1])) }
}
pub open spec fn mat_vec<F>(m: Seq<Seq<F>>, s: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| dot(m[i], s, s.len())) }
pub open spec fn add_rc<F>(s: Seq<F>, rc: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| fadd(s[i], rc[i])) }
/// the s-box in every word
pub open spec fn sb<F>(s: Seq<F>) -> Seq<F> { s.map_values(|x: F| p5(x)) }
/// the s-box in the first word
pub open spec fn sb0<F>(s: Seq<F>) -> Seq<F> { s.update(0, p5(s[0])) }
pub open spec fn full_s<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> { mat_vec(m, sb(add_rc(s, rc))) }
pub open spec fn part_s<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> { mat_vec(m, sb0(add_rc(s, rc))) }
pub open spec fn is_full(i: int, h: int, p: int) -> bool { i < h || i >= h + p }
/// h full rounds, p partial ones, full ones
pub open spec fn rounds<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, h: int, p: int, n: nat) -> Seq<F> decreases n {
    if n == 0 { s } else {
        let t = rounds(s, m, rc, h, p, (n - 1) as nat);
        if is_full(n - 1, h, p) { full_s(t, m, rc[n - 1]) } else { part_s(t, m, rc[n - 1]) }
    }
}
// ---------------------------------------------------------------- what the gates say of a row
pub open spec fn adv<F>(c: Seq<Column<Advice>>, a: Around<F>, o: int) -> Seq<F> { Seq::new(c.len(), |i: int| a(c[i].c(), o)) }
pub open spec fn fix<F>(c: Seq<Column<Fixed>>, a: Around<F>) -> Seq<F> { Seq::new(c.len(), |i: int| a(c[i].c(), 0)) }
/// a row whose selector is set maps x to y
pub open spec fn gate<F>(q: F, x: Seq<F>, y: Seq<F>) -> bool { q == fzero::<F>() || x == y }
/// the words of the state with the round constant added
pub open spec fn keyed<F>(st: Seq<Column<Advice>>, ka: Seq<Column<Fixed>>, a: Around<F>) -> Seq<F> { add_rc(adv(st, a, 0), fix(ka, a)) }
/// between two partial rounds: p is what the first s-box gives
pub open spec fn between<F>(m: Seq<Seq<F>>, y: Seq<F>, p: F, kb: Seq<F>) -> Seq<F> { add_rc(mat_vec(m, y.update(0, p)), kb) }
pub open spec fn pair_x<F>(m: Seq<Seq<F>>, y: Seq<F>, p: F, kb: Seq<F>) -> Seq<F> { seq![p5(y[0])] + sb0(between(m, y, p, kb)) }
pub open spec fn pair_y<F>(inv: Seq<Seq<F>>, p: F, z: Seq<F>) -> Seq<F> { seq![p] + mat_vec(inv, z) }
pub open spec fn added<F>(s: Seq<F>, w: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| if i < s.len() - 1 { fadd(s[i], w[i]) } else { s[i] }) }
pub type Words<F> = spec_fn(Around<F>) -> Seq<F>;
/// the difference of x and y, whichever way round
pub open spec fn off<F>(e: F, x: F, y: F) -> bool { e == fsub(x, y) || e == fsub(y, x) }
pub open spec fn times<F>(e: F, q: F, x: F, y: F) -> bool { e == fmul(q, fsub(x, y)) || e == fmul(q, fsub(y, x)) }
/// the k-th constraint says that q is zero or x[k] is y[k]
pub open spec fn lines<F>(g: Seq<Expression<F>>, q: Expression<F>, x: Words<F>, y: Words<F>) -> bool {
    forall|k: int, a: Around<F>| 0 <= k < g.len() ==> (#[trigger] ev(g[k], a) == fzero::<F>()) == (ev(q, a) == fzero::<F>() || x(a)[k] == y(a)[k])
}
proof fn lines_gate<F: Field>(g: Seq<Expression<F>>, q: Expression<F>, x: Words<F>, y: Words<F>, a: Around<F>)
    requires lines(g, q, x, y), g.len() == x(a).len(), g.len() == y(a).len()
    ensures vanish(g, a) <==> gate(ev(q, a), x(a), y(a))
{
    broadcast use {super::f_mul_zero, super::f_sub_eq};
    if vanish(g, a) && ev(q, a) != fzero::<F>() {
        assert forall|k: int| 0 <= k < g.len() implies #[trigger] x(a)[k] == y(a)[k] by { assert(ev(g[k], a) == fzero::<F>()); }
        assert(x(a) =~= y(a));
    }
    if gate(ev(q, a), x(a), y(a)) { assert forall|k: int| 0 <= k < g.len() implies ev(#[trigger] g[k], a) == fzero::<F>() by {} }
}
/// the partial sum of a matrix row
pub open spec fn partial<F>(e: Expression<F>, r: Seq<F>, x: Words<F>, n: int) -> bool { forall|a: Around<F>| #[trigger] ev(e, a) == dot(r, x(a), n as nat) }
/// the sum from the second entry on: it completes to the row when the first entry is added
pub open spec fn behind<F>(e: Expression<F>, r: Seq<F>, x: Words<F>, n: int) -> bool { forall|a: Around<F>| fadd(fmul(r[0], x(a)[0]), #[trigger] ev(e, a)) == dot(r, x(a), (n + 1) as nat) }
pub open spec fn differ<F>(e: Expression<F>, x: Words<F>, y: Words<F>, k: int) -> bool { forall|a: Around<F>| off(#[trigger] ev(e, a), x(a)[k], y(a)[k]) }
proof fn behind_step<F: Field>(o: Option<Expression<F>>, e: Expression<F>, r: Seq<F>, x: Words<F>, j: int)
    requires j >= 0, j > 0 ==> o is Some && behind(o->0, r, x, j), forall|a: Around<F>| #[trigger] ev(e, a) == (if j == 0 { fmul(r[1], x(a)[1]) } else { fadd(ev(o->0, a), fmul(r[j + 1], x(a)[j + 1])) })
    ensures behind(e, r, x, j + 1)
{
    reveal_with_fuel(dot, 3);
    broadcast use {super::f_add_zero_l, super::f_add_assoc};
    assert forall|a: Around<F>| fadd(fmul(r[0], x(a)[0]), #[trigger] ev(e, a)) == dot(r, x(a), (j + 2) as nat) by {
        assert(dot(r, x(a), (j + 2) as nat) == fadd(dot(r, x(a), (j + 1) as nat), fmul(r[j + 1], x(a)[j + 1])));
        if j > 0 { assert(fadd(fmul(r[0], x(a)[0]), ev(o->0, a)) == dot(r, x(a), (j + 1) as nat)); }
    }
}
proof fn lines_push<F: Field>(w: Seq<Expression<F>>, v: Seq<Expression<F>>, q: Expression<F>, x: Words<F>, y: Words<F>)
    requires lines(w, q, x, y), v == w.push(v.last()), v.len() == w.len() + 1, forall|a: Around<F>| times(#[trigger] ev(v[v.len() - 1], a), ev(q, a), x(a)[v.len() - 1], y(a)[v.len() - 1])
    ensures lines(v, q, x, y)
{
    broadcast use {super::f_mul_zero, super::f_sub_eq};
    assert forall|k: int, a: Around<F>| 0 <= k < v.len() implies (#[trigger] ev(v[k], a) == fzero::<F>()) == (ev(q, a) == fzero::<F>() || x(a)[k] == y(a)[k]) by { if k < w.len() { assert(v[k] == w[k]); assert((ev(w[k], a) == fzero::<F>()) == (ev(q, a) == fzero::<F>() || x(a)[k] == y(a)[k])); } }
}
pub type State<F, const T: usize> = [F; T];
pub type Cols<T> = Seq<Column<T>>;
pub open spec fn w_full<F>(st: Cols<Advice>, ka: Cols<Fixed>) -> Words<F> { |a: Around<F>| sb(keyed(st, ka, a)) }
pub open spec fn w_single<F>(st: Cols<Advice>, ka: Cols<Fixed>) -> Words<F> { |a: Around<F>| sb0(keyed(st, ka, a)) }
pub open spec fn w_mid<F>(st: Cols<Advice>, ka: Cols<Fixed>, ps: Column<Advice>) -> Words<F> { |a: Around<F>| keyed(st, ka, a).update(0, a(ps.c(), 0)) }
pub open spec fn x_full<F>(m: Seq<Seq<F>>, st: Cols<Advice>, ka: Cols<Fixed>) -> Words<F> { |a: Around<F>| mat_vec(m, sb(keyed(st, ka, a))) }
pub open spec fn x_single<F>(m: Seq<Seq<F>>, st: Cols<Advice>, ka: Cols<Fixed>) -> Words<F> { |a: Around<F>| mat_vec(m, sb0(keyed(st, ka, a))) }
pub open spec fn x_pair<F>(m: Seq<Seq<F>>, st: Cols<Advice>, ka: Cols<Fixed>, kb: Cols<Fixed>, ps: Column<Advice>) -> Words<F> { |a: Around<F>| pair_x(m, keyed(st, ka, a), a(ps.c(), 0), fix(kb, a)) }
pub open spec fn y_pair<F>(inv: Seq<Seq<F>>, st: Cols<Advice>, ps: Column<Advice>) -> Words<F> { |a: Around<F>| pair_y(inv, a(ps.c(), 0), adv(st, a, 1)) }
pub open spec fn x_pad<F>(st: Cols<Advice>) -> Words<F> { |a: Around<F>| added(adv(st, a, -1), adv(st, a, 0)) }
pub open spec fn y_next<F>(st: Cols<Advice>) -> Words<F> { |a: Around<F>| adv(st, a, 1) }
//@@file poseidon-circuit/src/poseidon/pow5.rs
//@@struct Pow5Config public
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    pub open spec fn is(self, state: [Column<Advice>; WIDTH], partial_sbox: Column<Advice>, rc_a: [Column<Fixed>; WIDTH], rc_b: [Column<Fixed>; WIDTH]) -> bool {
        self.state == state && self.partial_sbox == partial_sbox && self.rc_a == rc_a && self.rc_b == rc_b
    }
    pub open spec fn sel(self, n: int) -> bool { {
        let (i, j, k, l) = (self.s_full.0 - n, self.s_partial.0 - n, self.s_partial_single.0 - n, self.s_pad_and_add.0 - n);
        0 <= i < 4 && 0 <= j < 4 && 0 <= k < 4 && 0 <= l < 4 && i != j && i != k && i != l && j != k && j != l && k != l
    } }
    pub open spec fn m(self) -> Seq<Seq<F>> { rows(self.m_reg@) }
    pub open spec fn inv(self) -> Seq<Seq<F>> { rows(self.m_inv@) }
    pub open spec fn key(self, a: Around<F>) -> Seq<F> { keyed(self.state@, self.rc_a@, a) }
    pub open spec fn full(self, a: Around<F>) -> bool { gate(a(self.s_full.c(), 0), mat_vec(self.m(), sb(self.key(a))), adv(self.state@, a, 1)) }
    pub open spec fn single(self, a: Around<F>) -> bool { gate(a(self.s_partial_single.c(), 0), mat_vec(self.m(), sb0(self.key(a))), adv(self.state@, a, 1)) }
    pub open spec fn pair(self, a: Around<F>) -> bool {
        gate(a(self.s_partial.c(), 0), pair_x(self.m(), self.key(a), a(self.partial_sbox.c(), 0), fix(self.rc_b@, a)), pair_y(self.inv(), a(self.partial_sbox.c(), 0), adv(self.state@, a, 1)))
    }
    pub open spec fn pad(self, a: Around<F>) -> bool { gate(a(self.s_pad_and_add.c(), 0), added(adv(self.state@, a, -1), adv(self.state@, a, 0)), adv(self.state@, a, 1)) }
}
impl<F: FromUniformBytes<64> + Ord, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// the constants and round numbers are those of the specification
    pub open spec fn of<S: Spec<F, WIDTH, RATE>>(self) -> bool {
        self.half_full_rounds == S::s_full_rounds() as int / 2 && self.half_partial_rounds == S::s_partial_rounds() as int / 2 && self.alpha@ == seq![5u64, 0, 0, 0]
        && rows(self.round_constants@) == S::s_rc() && self.m() == S::s_mds() && self.inv() == S::s_inv()
    }
}
//@@struct StateWord public
impl<F: PrimeField> Clone for StateWord<F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@@impl Var<F>forStateWord<F> as StateWord<F> inherent word_
//@ method word_value
        ensures r.v == Some(self.0.v@)
//@@end
impl<F: PrimeField> StateWord<F> {
    pub fn value(&self) -> (r: Value<F>) ensures r.v == Some(self.0.v@) { self.word_value() }
}
// ---------------------------------------------------------------- the cells of a permutation
pub trait Pow: Sized {
    fn pow(&self, e: &[u64; 4]) -> (r: Self) ensures e@ == seq![5u64, 0, 0, 0] ==> r == p5(*self);
    fn pow_vartime(&self, e: &[u64; 4]) -> (r: Self) ensures e@ == seq![5u64, 0, 0, 0] ==> r == p5(*self);
}
impl<F: PrimeField> Pow for F {
    #[verifier::external_body] fn pow(&self, e: &[u64; 4]) -> Self { unimplemented!() }
    #[verifier::external_body] fn pow_vartime(&self, e: &[u64; 4]) -> Self { unimplemented!() }
}
pub open spec fn both<F>(a: Value<F>, b: Value<F>, f: spec_fn(F, F) -> F) -> Value<F> { Value { v: if a.v is Some && b.v is Some { Some(f(a.v->0, b.v->0)) } else { None } } }
impl<F: Field> Add for Value<F> { type Output = Value<F>; #[verifier::external_body] fn add(self, y: Self) -> Self { unimplemented!() } }
impl<F: Field> AddSpecImpl for Value<F> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, y: Self) -> bool { true } open spec fn add_spec(self, y: Self) -> Self { both(self, y, |a: F, b: F| fadd(a, b)) } }
impl<'a, F: Field> Add<&'a Value<F>> for Value<F> { type Output = Value<F>; #[verifier::external_body] fn add(self, y: &'a Value<F>) -> Self { unimplemented!() } }
impl<'a, F: Field> AddSpecImpl<&'a Value<F>> for Value<F> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, y: &'a Value<F>) -> bool { true } open spec fn add_spec(self, y: &'a Value<F>) -> Self { both(self, *y, |a: F, b: F| fadd(a, b)) } }
impl<F: Field> Mul for Value<F> { type Output = Value<F>; #[verifier::external_body] fn mul(self, y: Self) -> Self { unimplemented!() } }
impl<F: Field> MulSpecImpl for Value<F> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, y: Self) -> bool { true } open spec fn mul_spec(self, y: Self) -> Self { both(self, y, |a: F, b: F| fmul(a, b)) } }
impl<'a, F: Field> Mul<&'a Value<F>> for Value<F> { type Output = Value<F>; #[verifier::external_body] fn mul(self, y: &'a Value<F>) -> Self { unimplemented!() } }
impl<'a, F: Field> MulSpecImpl<&'a Value<F>> for Value<F> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, y: &'a Value<F>) -> bool { true } open spec fn mul_spec(self, y: &'a Value<F>) -> Self { both(self, *y, |a: F, b: F| fmul(a, b)) } }
pub open spec fn cs<T: ColumnType>(c: Seq<Column<T>>) -> Seq<Cell> { Seq::new(c.len(), |i: int| c[i].c()) }
/// the column is one of the first k
pub open spec fn has(cols: Seq<Cell>, x: Cell, k: int) -> bool { cols.contains(x) && cols.index_of(x) < k }
/// n is m with the first k columns of one row assigned
pub open spec fn row_put<F>(m: Cells<F>, n: Cells<F>, cols: Seq<Cell>, o: int, vals: Seq<F>, k: int) -> bool {
    forall|x: Cell, y: int| #[trigger] n(x, y) == (if y == o && has(cols, x, k) { Some(vals[cols.index_of(x)]) } else { m(x, y) })
}
proof fn row_one<F>(m: Cells<F>, a: Cells<F>, b: Cells<F>, cols: Seq<Cell>, o: int, vals: Seq<F>, k: int)
    requires row_put(m, a, cols, o, vals, k), 0 <= k < cols.len(), put(a, b, cols[k], o, vals[k]), cols.no_duplicates()
    ensures row_put(m, b, cols, o, vals, k + 1)
{
    assert(cols.contains(cols[k]) && cols.index_of(cols[k]) == k) by { let i = cols.index_of(cols[k]); }
    assert forall|x: Cell, y: int| #[trigger] b(x, y) == (if y == o && has(cols, x, k + 1) { Some(vals[cols.index_of(x)]) } else { m(x, y) }) by {
        assert(a(x, y) == (if y == o && has(cols, x, k) { Some(vals[cols.index_of(x)]) } else { m(x, y) }));
        if cols.contains(x) { assert(cols[cols.index_of(x)] == x); }
    }
}
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    pub open spec fn rc(self) -> Seq<Seq<F>> { rows(self.round_constants@) }
    /// no column or selector is used twice
    pub open spec fn wf(self) -> bool {
        &&& 2 <= WIDTH <= 0x4000_0000 && self.alpha@ == seq![5u64, 0, 0, 0] && self.m_reg@.len() == WIDTH
        &&& cs(self.state@).no_duplicates() && cs(self.rc_a@).no_duplicates() && cs(self.rc_b@).no_duplicates() && !cs(self.state@).contains(self.partial_sbox.c())
        &&& (forall|x: Cell| cs(self.rc_a@).contains(x) ==> !#[trigger] cs(self.rc_b@).contains(x))
        &&& self.s_full != self.s_partial && self.s_full != self.s_partial_single && self.s_partial != self.s_partial_single
        &&& self.s_pad_and_add != self.s_full && self.s_pad_and_add != self.s_partial && self.s_pad_and_add != self.s_partial_single
    }
    /// the row of a round; b: the word behind the first s-box, in a row of two rounds
    pub open spec fn in_row(self, sel: Selector, round: int, b: Option<F>, x: Cell) -> Option<F> {
        let (ka, kb) = (cs(self.rc_a@), cs(self.rc_b@));
        if x == sel.c() { Some(fone()) } else if ka.contains(x) { Some(self.rc()[round][ka.index_of(x)]) }
        else if b is Some && x == self.partial_sbox.c() { b } else if b is Some && kb.contains(x) { Some(self.rc()[round + 1][kb.index_of(x)]) } else { None }
    }
    pub open spec fn in_state(self, z: Seq<F>, x: Cell) -> Option<F> { let st = cs(self.state@); if st.contains(x) { Some(z[st.index_of(x)]) } else { None } }
    /// n is m with the row of a round and the state behind it
    pub open spec fn stepped(self, m: Cells<F>, n: Cells<F>, sel: Selector, o: int, round: int, b: Option<F>, z: Seq<F>) -> bool {
        forall|x: Cell, y: int| #[trigger] n(x, y) == (
            if y == o && self.in_row(sel, round, b, x) is Some { self.in_row(sel, round, b, x) }
            else if y == o + 1 && self.in_state(z, x) is Some { self.in_state(z, x) } else { m(x, y) })
    }
    /// words in the state columns of a row
    pub open spec fn placed(self, w: Seq<StateWord<F>>, g: int, o: int, z: Seq<F>) -> bool { w.len() == WIDTH && forall|i: int| 0 <= i < WIDTH ==> (#[trigger] w[i]).0.is(g, self.state@[i].c(), o, z[i]) }
}
/// the values of words
pub open spec fn sv<F: PrimeField>(s: Seq<StateWord<F>>) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].0.v@) }
pub open spec fn known<F>(v: Seq<Value<F>>, x: Seq<F>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).v == Some(x[i]) }
pub open spec fn words<F: PrimeField>(w: Seq<StateWord<F>>, g: int, c: Cols<Advice>, o: int, z: Seq<F>, k: int) -> bool { w.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] w[i]).0.is(g, c[i].c(), o, z[i]) }
proof fn col_kinds<T: ColumnType>(c: Seq<Column<T>>, x: Cell) ensures cs(c).contains(x) ==> 0 <= cs(c).index_of(x) < c.len() && x == c[cs(c).index_of(x)].c() {
    if cs(c).contains(x) { assert(cs(c)[cs(c).index_of(x)] == x); }
}
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// between the rows: at most the selector and the cell behind the first s-box were set
    pub open spec fn near(self, a: Cells<F>, b: Cells<F>, sel: Selector, o: int, p: Option<F>) -> bool {
        forall|x: Cell, y: int| #[trigger] b(x, y) == a(x, y) || (y == o && x == sel.c() && b(x, y) == Some(fone::<F>())) || (p is Some && y == o && x == self.partial_sbox.c() && b(x, y) == p)
    }
    proof fn one_round(self, m: Cells<F>, m1: Cells<F>, m2: Cells<F>, n2: Cells<F>, m3: Cells<F>, sel: Selector, o: int, round: int, z: Seq<F>)
        requires self.wf(), self.near(m, m1, sel, o, None), row_put(m1, m2, cs(self.rc_a@), o, self.rc()[round], WIDTH as int), self.near(m2, n2, sel, o, None),
            row_put(n2, m3, cs(self.state@), o + 1, z, WIDTH as int), m1(sel.c(), o) == Some(fone::<F>()) || n2(sel.c(), o) == Some(fone::<F>())
        ensures self.stepped(m, m3, sel, o, round, None, z)
    {
        assert forall|x: Cell, y: int| #[trigger] m3(x, y) == (
            if y == o && self.in_row(sel, round, None, x) is Some { self.in_row(sel, round, None, x) }
            else if y == o + 1 && self.in_state(z, x) is Some { self.in_state(z, x) } else { m(x, y) }) by {
            col_kinds(self.rc_a@, x); col_kinds(self.state@, x);
            let (a, b, c, d) = (m1(x, y), m2(x, y), n2(x, y), m3(x, y));
        }
    }
    proof fn two_rounds(self, m: Cells<F>, m1: Cells<F>, m2: Cells<F>, n2: Cells<F>, m4: Cells<F>, n4: Cells<F>, m5: Cells<F>, sel: Selector, o: int, round: int, p: F, z: Seq<F>)
        requires self.wf(), self.near(m, m1, sel, o, Some(p)), row_put(m1, m2, cs(self.rc_a@), o, self.rc()[round], WIDTH as int), self.near(m2, n2, sel, o, Some(p)),
            row_put(n2, m4, cs(self.rc_b@), o, self.rc()[round + 1], WIDTH as int), self.near(m4, n4, sel, o, Some(p)), row_put(n4, m5, cs(self.state@), o + 1, z, WIDTH as int),
            m1(sel.c(), o) == Some(fone::<F>()) || n2(sel.c(), o) == Some(fone::<F>()) || n4(sel.c(), o) == Some(fone::<F>()),
            m1(self.partial_sbox.c(), o) == Some(p) || n2(self.partial_sbox.c(), o) == Some(p) || n4(self.partial_sbox.c(), o) == Some(p),
        ensures self.stepped(m, m5, sel, o, round, Some(p), z)
    {
        assert forall|x: Cell, y: int| #[trigger] m5(x, y) == (
            if y == o && self.in_row(sel, round, Some(p), x) is Some { self.in_row(sel, round, Some(p), x) }
            else if y == o + 1 && self.in_state(z, x) is Some { self.in_state(z, x) } else { m(x, y) }) by {
            col_kinds(self.rc_a@, x); col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
            let (a, b, c, d, e, f) = (m1(x, y), m2(x, y), n2(x, y), m4(x, y), n4(x, y), m5(x, y));
        }
    }
}
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// the words handed in are tied to the state columns of the first row
    pub open spec fn entry(self, g: int, s: Seq<StateWord<F>>) -> Seq<Set<At>> { Seq::new(WIDTH as nat, |i: int| tied(s[i].0.at@, (g, self.state@[i].c(), 0))) }
}
//@@struct Pow5State public
//@@inline Pow5State<F,WIDTH>::round
//@@impl Pow5State<F,WIDTH> as Pow5State
//@ method full_round
//@ opt expand keep loops
//@ opt map result
        requires config.wf(), round < config.round_constants@.len(), offset < usize::MAX, round < usize::MAX
        ensures r is Ok ==> config.stepped(old(region).cells@, final(region).cells@, config.s_full, offset as int, round as int, None, full_s(sv(self.0@), config.m(), config.rc()[round as int]))
            && final(region).tag@ == old(region).tag@ && config.placed((r->Ok_0).0@, old(region).tag@.0, offset + 1, full_s(sv(self.0@), config.m(), config.rc()[round as int]))
//@ at begin
        let ghost mut m1 = region.cells@; let ghost mut m2 = region.cells@; let ghost mut mz = region.cells@;
        let ghost x1s = sb(add_rc(sv(self.0@), config.rc()[round as int]));
        let ghost (x2s, z2s) = (x1s, mat_vec(config.m(), x1s));
        let ghost z = full_s(sv(self.0@), config.m(), config.rc()[round as int]);
//@ at before-loop 0
        proof { m1 = region.cells@; }
//@ loop 0
            invariant config.wf(), n0__ == WIDTH, i0__ <= n0__, round < config.round_constants@.len(), row_put(m1, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], i0__ as int), region.tag@ == old(region).tag@
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(m1, b0, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], j0__ as int); }
//@ at after-loop 0
        proof { m2 = region.cells@; }
//@ loop 1
            invariant config.wf(), n1__ == WIDTH, i1__ <= n1__, round < config.round_constants@.len(), x1s == sb(add_rc(sv(self.0@), config.rc()[round as int])), known(v1__@, x1s, i1__ as int)
            decreases n1__ - i1__
//@ at loop-begin 1
        broadcast use super::f_add_comm;
//@ loop 2
            invariant config.wf(), n2__ == WIDTH, m == &config.m_reg, i2__ <= n2__, x2s == x1s, z2s == mat_vec(config.m(), x2s), x2s.len() == WIDTH, known(v2__@, z2s, i2__ as int), known(r@, x2s, WIDTH as int)
            decreases n2__ - i2__
//@ loop 3
            invariant config.wf(), n3__ == WIDTH, i3__ <= n3__, j2__ < WIDTH, m_i == &config.m_reg[j2__ as int], x2s.len() == WIDTH, known(r@, x2s, WIDTH as int), acc.v == Some(dot(config.m()[j2__ as int], x2s, i3__ as nat))
            decreases n3__ - i3__
//@ at loop-begin 3
        reveal_with_fuel(dot, 3);
        assert(r@[j3__ as int].v == Some(x2s[j3__ as int]));
//@ at before-loop 4
        proof { mz = region.cells@; }
//@ loop 4
            invariant config.wf(), n4__ == WIDTH, i4__ <= n4__, offset < usize::MAX, z.len() == WIDTH, known(next_state__1@, z, WIDTH as int), row_put(mz, region.cells@, cs(config.state@), offset + 1, z, i4__ as int), region.tag@ == old(region).tag@,
                words(t0__@, region.tag@.0, config.state@, offset + 1, z, i4__ as int)
            decreases n4__ - i4__
//@ at loop-begin 4
        let ghost b4 = region.cells@;
        assert(next_state__1@[j4__ as int].v == Some(z[j4__ as int]));
//@ at loop-end 4
        proof { row_one(mz, b4, region.cells@, cs(config.state@), offset + 1, z, j4__ as int); }
//@ at after-loop 4
        proof { config.one_round(old(region).cells@, m1, m2, mz, region.cells@, config.s_full, offset as int, round as int, z); }
//@ method partial_round_single
//@ opt expand keep loops
//@ opt map result
        requires config.wf(), round < config.round_constants@.len(), offset < usize::MAX, round < usize::MAX
        ensures r is Ok ==> config.stepped(old(region).cells@, final(region).cells@, config.s_partial_single, offset as int, round as int, None, part_s(sv(self.0@), config.m(), config.rc()[round as int]))
            && final(region).tag@ == old(region).tag@ && config.placed((r->Ok_0).0@, old(region).tag@.0, offset + 1, part_s(sv(self.0@), config.m(), config.rc()[round as int]))
//@ at begin
        let ghost mut m1 = region.cells@; let ghost mut m2 = region.cells@; let ghost mut mz = region.cells@;
        let ghost x1s = sb0(add_rc(sv(self.0@), config.rc()[round as int]));
        let ghost (x2s, z2s) = (x1s, mat_vec(config.m(), x1s));
        let ghost z = part_s(sv(self.0@), config.m(), config.rc()[round as int]);
//@ at before-loop 0
        proof { m1 = region.cells@; }
//@ loop 0
            invariant config.wf(), n0__ == WIDTH, i0__ <= n0__, round < config.round_constants@.len(), row_put(m1, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], i0__ as int), region.tag@ == old(region).tag@
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(m1, b0, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], j0__ as int); }
//@ at after-loop 0
        proof { m2 = region.cells@; }
//@ loop 1
            invariant config.wf(), n1__ == WIDTH, i1__ <= n1__, round < config.round_constants@.len(), x1s == sb0(add_rc(sv(self.0@), config.rc()[round as int])), known(v1__@, x1s, i1__ as int)
            decreases n1__ - i1__
//@ at loop-begin 1
        broadcast use super::f_add_comm;
//@ loop 2
            invariant config.wf(), n2__ == WIDTH, m == &config.m_reg, i2__ <= n2__, x2s == x1s, z2s == mat_vec(config.m(), x2s), x2s.len() == WIDTH, known(v2__@, z2s, i2__ as int), known(r@, x2s, WIDTH as int)
            decreases n2__ - i2__
//@ loop 3
            invariant config.wf(), n3__ == WIDTH, i3__ <= n3__, j2__ < WIDTH, m_i == &config.m_reg[j2__ as int], x2s.len() == WIDTH, known(r@, x2s, WIDTH as int), acc.v == Some(dot(config.m()[j2__ as int], x2s, i3__ as nat))
            decreases n3__ - i3__
//@ at loop-begin 3
        reveal_with_fuel(dot, 3);
        assert(r@[j3__ as int].v == Some(x2s[j3__ as int]));
//@ at before-loop 4
        proof { mz = region.cells@; }
//@ loop 4
            invariant config.wf(), n4__ == WIDTH, i4__ <= n4__, offset < usize::MAX, z.len() == WIDTH, known(next_state__1@, z, WIDTH as int), row_put(mz, region.cells@, cs(config.state@), offset + 1, z, i4__ as int), region.tag@ == old(region).tag@,
                words(t0__@, region.tag@.0, config.state@, offset + 1, z, i4__ as int)
            decreases n4__ - i4__
//@ at loop-begin 4
        let ghost b4 = region.cells@;
        assert(next_state__1@[j4__ as int].v == Some(z[j4__ as int]));
//@ at loop-end 4
        proof { row_one(mz, b4, region.cells@, cs(config.state@), offset + 1, z, j4__ as int); }
//@ at after-loop 4
        proof { config.one_round(old(region).cells@, m1, m2, mz, region.cells@, config.s_partial_single, offset as int, round as int, z); }
//@ method partial_round
//@ opt expand keep loops
//@ opt map result
        requires config.wf(), round + 1 < config.round_constants@.len(), offset < usize::MAX, round + 2 < usize::MAX
        ensures r is Ok ==> ({
            let y = part_s(sv(self.0@), config.m(), config.rc()[round as int]);
            let z = part_s(y, config.m(), config.rc()[round + 1]);
            config.stepped(old(region).cells@, final(region).cells@, config.s_partial, offset as int, round as int, Some(p5(fadd(self.0@[0].0.v@, config.rc()[round as int][0]))), z)
            && final(region).tag@ == old(region).tag@ && config.placed((r->Ok_0).0@, old(region).tag@.0, offset + 1, z) })
//@ at begin
        let ghost mut m1 = region.cells@; let ghost mut mz = region.cells@; let ghost mut m5 = region.cells@; let ghost mut m6 = region.cells@; let ghost mut mp = region.cells@;
        let ghost x3s = sb0(add_rc(sv(self.0@), config.rc()[round as int]));
        let ghost y = part_s(sv(self.0@), config.m(), config.rc()[round as int]);
        let ghost x7s = sb0(add_rc(y, config.rc()[round + 1]));
        let ghost (z3s, z7s) = (mat_vec(config.m(), x3s), mat_vec(config.m(), x7s));
        let ghost z = part_s(y, config.m(), config.rc()[round + 1]);
//@ at before-loop 0
        proof { m1 = region.cells@; }
//@ loop 0
            invariant config.wf(), n0__ == WIDTH, i0__ <= n0__, round < config.round_constants@.len(), row_put(m1, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], i0__ as int), region.tag@ == old(region).tag@
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(m1, b0, region.cells@, cs(config.rc_a@), offset as int, config.rc()[round as int], j0__ as int); }
//@ at after-loop 0
        proof { mp = region.cells@; }
//@ loop 1
            invariant config.wf(), n1__ == WIDTH, i1__ <= n1__, known(v1__@, sv(self.0@), i1__ as int)
            decreases n1__ - i1__
//@ loop 2
            invariant config.wf(), n2__ == WIDTH, i2__ <= n2__, round < config.round_constants@.len(), x3s == sb0(add_rc(sv(self.0@), config.rc()[round as int])), known(p@, sv(self.0@), WIDTH as int), c0__.v == Some(x3s[0]), known(v2__@, x3s, i2__ as int)
            decreases n2__ - i2__
//@ at loop-begin 2
        broadcast use super::f_add_comm;
//@ loop 3
            invariant config.wf(), n3__ == WIDTH, m == &config.m_reg, i3__ <= n3__, x3s == sb0(add_rc(sv(self.0@), config.rc()[round as int])), z3s == mat_vec(config.m(), x3s), x3s.len() == WIDTH, known(v3__@, z3s, i3__ as int), known(r@, x3s, WIDTH as int)
            decreases n3__ - i3__
//@ loop 4
            invariant config.wf(), n4__ == WIDTH, i4__ <= n4__, j3__ < WIDTH, m_i == &config.m_reg[j3__ as int], x3s.len() == WIDTH, known(r@, x3s, WIDTH as int), acc.v == Some(dot(config.m()[j3__ as int], x3s, i4__ as nat))
            decreases n4__ - i4__
//@ at loop-begin 4
        reveal_with_fuel(dot, 3);
        assert(r@[j4__ as int].v == Some(x3s[j4__ as int]));
//@ at before-loop 5
        proof { m5 = region.cells@; }
//@ loop 5
            invariant config.wf(), round + 2 < usize::MAX, n5__ == WIDTH, i5__ <= n5__, round + 1 < config.round_constants@.len(), row_put(m5, region.cells@, cs(config.rc_b@), offset as int, config.rc()[round + 1], i5__ as int), region.tag@ == old(region).tag@
            decreases n5__ - i5__
//@ at loop-begin 5
        let ghost b5 = region.cells@;
//@ at loop-end 5
        proof { row_one(m5, b5, region.cells@, cs(config.rc_b@), offset as int, config.rc()[round + 1], j5__ as int); }
//@ at after-loop 5
        proof { m6 = region.cells@; }
//@ loop 6
            invariant config.wf(), round + 2 < usize::MAX, n6__ == WIDTH, i6__ <= n6__, round + 1 < config.round_constants@.len(), x7s == sb0(add_rc(y, config.rc()[round + 1])), y.len() == WIDTH, known(p_mid@, y, WIDTH as int), c1__.v == Some(x7s[0]), known(v6__@, x7s, i6__ as int)
            decreases n6__ - i6__
//@ at loop-begin 6
        broadcast use super::f_add_comm;
//@ loop 7
            invariant config.wf(), n7__ == WIDTH, m == &config.m_reg, i7__ <= n7__, x7s == sb0(add_rc(y, config.rc()[round + 1])), z7s == mat_vec(config.m(), x7s), x7s.len() == WIDTH, known(v7__@, z7s, i7__ as int), known(r_mid@, x7s, WIDTH as int)
            decreases n7__ - i7__
//@ loop 8
            invariant config.wf(), n8__ == WIDTH, i8__ <= n8__, j7__ < WIDTH, m_i == &config.m_reg[j7__ as int], x7s.len() == WIDTH, known(r_mid@, x7s, WIDTH as int), acc.v == Some(dot(config.m()[j7__ as int], x7s, i8__ as nat))
            decreases n8__ - i8__
//@ at loop-begin 8
        reveal_with_fuel(dot, 3);
        assert(r_mid@[j8__ as int].v == Some(x7s[j8__ as int]));
//@ at before-loop 9
        proof { mz = region.cells@; }
//@ loop 9
            invariant config.wf(), n9__ == WIDTH, i9__ <= n9__, offset < usize::MAX, z.len() == WIDTH, known(next_state__1@, z, WIDTH as int), row_put(mz, region.cells@, cs(config.state@), offset + 1, z, i9__ as int), region.tag@ == old(region).tag@,
                words(t2__@, region.tag@.0, config.state@, offset + 1, z, i9__ as int)
            decreases n9__ - i9__
//@ at loop-begin 9
        let ghost b9 = region.cells@;
        assert(next_state__1@[j9__ as int].v == Some(z[j9__ as int]));
//@ at loop-end 9
        proof { row_one(mz, b9, region.cells@, cs(config.state@), offset + 1, z, j9__ as int); }
//@ at after-loop 9
        proof { config.two_rounds(old(region).cells@, m1, mp, m5, m6, mz, region.cells@, config.s_partial, offset as int, round as int, x3s[0], z); }
//@ method load
//@ opt expand keep loops
//@ opt map result
        requires config.wf()
        ensures r is Ok ==> row_put(old(region).cells@, final(region).cells@, cs(config.state@), 0, sv(initial_state@), WIDTH as int)
            && final(region).tag@ == (old(region).tag@.0, old(region).tag@.1 + config.entry(old(region).tag@.0, initial_state@)) && config.placed((r->Ok_0).0@, old(region).tag@.0, 0, sv(initial_state@))
//@ loop 0
            invariant config.wf(), n0__ == WIDTH, i0__ <= n0__, row_put(old(region).cells@, region.cells@, cs(config.state@), 0, sv(initial_state@), i0__ as int), region.tag@.0 == old(region).tag@.0,
                region.tag@.1 =~= old(region).tag@.1 + config.entry(old(region).tag@.0, initial_state@).take(i0__ as int), words(t0__@, region.tag@.0, config.state@, 0, sv(initial_state@), i0__ as int)
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(old(region).cells@, b0, region.cells@, cs(config.state@), 0, sv(initial_state@), j0__ as int); }
//@ at after-loop 0
        proof { assert(config.entry(old(region).tag@.0, initial_state@).take(WIDTH as int) =~= config.entry(old(region).tag@.0, initial_state@)); }
//@@end
//@@struct Pow5Chip public
//@@impl Pow5Chip<F,WIDTH,RATE> as Pow5Chip
//@ method configure
//@ opt expand keep loops
//@ opt callback create_gate
//@ opt refuses
        requires 2 <= WIDTH <= 0x4000_0000
        ensures r.is(state, partial_sbox, rc_a, rc_b), r.of::<S>(), r.sel(old(meta).selectors@ as int), RATE == WIDTH - 1, S::s_full_rounds() % 2 == 0,
            final(meta).advices == old(meta).advices, final(meta).fixeds == old(meta).fixeds, final(meta).selectors@ == old(meta).selectors@ + 4, final(meta).tables == old(meta).tables,
            forall|a: Around<F>, t: Tables<F>| #[trigger] final(meta).sat(a, t) == (old(meta).sat(a, t) && r.full(a) && r.pair(a) && r.single(a) && r.pad(a))
//@ at begin
        reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
        broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
        assert forall|x: usize| #![trigger x & 1] #![trigger x % 2] x & 1 == x % 2 by { assert(x & 1 == x % 2) by (bit_vector); }
//@ loop 0
            invariant n0__ == WIDTH + WIDTH, i0__ <= n0__, *meta == *old(meta)
            decreases n0__ - i0__
//@ at loop-end 1
            assert forall|a: Around<F>| times(#[trigger] ev(v1__@[j1__ as int], a), ev(s_full, a), x_full(rows(m_reg@), state@, rc_a@)(a)[j1__ as int], y_next(state@)(a)[j1__ as int]) by { assert(state@.len() == WIDTH); assert(x_full(rows(m_reg@), state@, rc_a@)(a)[j1__ as int] == dot(rows(m_reg@)[j1__ as int], w_full(state@, rc_a@)(a), WIDTH as nat)); assert(y_next(state@)(a)[j1__ as int] == a(state@[j1__ as int].c(), 1));}
            proof { lines_push(w1, v1__@, s_full, x_full(rows(m_reg@), state@, rc_a@), y_next(state@)); }
//@ loop 1
            invariant n1__ == WIDTH, i1__ <= n1__, v1__@.len() == i1__, lines(v1__@, s_full, x_full(rows(m_reg@), state@, rc_a@), y_next(state@)), WIDTH >= 2
            decreases n1__ - i1__
//@ at loop-begin 1
            let ghost w1 = v1__@;
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
//@ loop 2
            invariant n2__ == WIDTH, i2__ <= n2__, next_idx < WIDTH, i2__ == 0 ==> r2__ is None, i2__ > 0 ==> r2__ is Some && partial(r2__->0, rows(m_reg@)[next_idx as int], w_full(state@, rc_a@), i2__ as int)
            decreases n2__ - i2__
//@ at loop-begin 2
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
            let ghost o2 = r2__;
//@ at loop-end 2
            assert forall|a: Around<F>| #[trigger] ev(r2__->0, a) == (if j2__ == 0 { fadd(fzero(), fmul(rows(m_reg@)[next_idx as int][0], w_full(state@, rc_a@)(a)[0])) } else { fadd(ev(o2->0, a), fmul(rows(m_reg@)[next_idx as int][j2__ as int], w_full(state@, rc_a@)(a)[j2__ as int])) }) by { }
//@ at before-callback 0
            assert forall|a: Around<F>| #[trigger] vanish(g0__@, a) <==> gate(a(s_full.c(), 0), x_full(rows(m_reg@), state@, rc_a@)(a), y_next(state@)(a)) by { lines_gate(g0__@, Expression::Query(Ghost(s_full.c()), 0i32), x_full(rows(m_reg@), state@, rc_a@), y_next(state@), a); }
//@ at loop-end 3
            assert forall|a: Around<F>| times(#[trigger] ev(v3__@[j3__ as int], a), ev(s_partial, a), x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox)(a)[j3__ as int], y_pair(rows(m_inv@), state@, partial_sbox)(a)[j3__ as int]) by { assert(state@.len() == WIDTH); let y = keyed(state@, rc_a@, a); let p = a(partial_sbox.c(), 0); let kb = fix(rc_b@, a);
                if j3__ >= 2 {
                    let i = j3__ - 1;
                    assert(x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox)(a)[j3__ as int] == fadd(dot(rows(m_reg@)[i], w_mid(state@, rc_a@, partial_sbox)(a), WIDTH as nat), a(rc_b@[i].c(), 0)));
                    assert(y_pair(rows(m_inv@), state@, partial_sbox)(a)[j3__ as int] == dot(rows(m_inv@)[i], y_next(state@)(a), WIDTH as nat));
                }
            }
            proof { lines_push(w3, v3__@, s_partial, x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox), y_pair(rows(m_inv@), state@, partial_sbox)); }
//@ at before-loop 3
            assert forall|a: Around<F>| off(#[trigger] ev(c1__, a), x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox)(a)[1], y_pair(rows(m_inv@), state@, partial_sbox)(a)[1]) by { assert(state@.len() == WIDTH); assert(x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox)(a)[1] == p5(fadd(dot(rows(m_reg@)[0], w_mid(state@, rc_a@, partial_sbox)(a), WIDTH as nat), a(rc_b@[0].c(), 0)))); assert(y_pair(rows(m_inv@), state@, partial_sbox)(a)[1] == dot(rows(m_inv@)[0], y_next(state@)(a), WIDTH as nat)); }
//@ loop 3
            invariant n3__ == WIDTH + 1, i3__ <= n3__, WIDTH >= 2, v3__@.len() == i3__, mid_0 == Expression::<F>::Query(Ghost(partial_sbox.c()), 0i32),
                differ(c0__, x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox), y_pair(rows(m_inv@), state@, partial_sbox), 0),
                differ(c1__, x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox), y_pair(rows(m_inv@), state@, partial_sbox), 1),
                lines(v3__@, s_partial, x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox), y_pair(rows(m_inv@), state@, partial_sbox))
            decreases n3__ - i3__
//@ at loop-begin 3
            let ghost w3 = v3__@;
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
//@ loop 4
            invariant n4__ == WIDTH - 1, i4__ <= n4__, idx < WIDTH, partial(acc, rows(m_reg@)[idx as int], w_mid(state@, rc_a@, partial_sbox), i4__ + 1)
            decreases n4__ - i4__
//@ at before-loop 4
            assert forall|a: Around<F>| #[trigger] ev(acc, a) == fadd(fzero(), fmul(rows(m_reg@)[idx as int][0], w_mid(state@, rc_a@, partial_sbox)(a)[0])) by { }
//@ at loop-begin 4
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
            let ghost o4 = acc;
//@ at loop-end 4
            assert forall|a: Around<F>| #[trigger] ev(acc, a) == fadd(ev(o4, a), fmul(rows(m_reg@)[idx as int][j4__ + 1], w_mid(state@, rc_a@, partial_sbox)(a)[j4__ + 1])) by { }
//@ loop 5
            invariant n5__ == WIDTH, i5__ <= n5__, idx < WIDTH, i5__ == 0 ==> r5__ is None, i5__ > 0 ==> r5__ is Some && partial(r5__->0, rows(m_inv@)[idx as int], y_next(state@), i5__ as int)
            decreases n5__ - i5__
//@ at loop-begin 5
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
            let ghost o5 = r5__;
//@ at loop-end 5
            assert forall|a: Around<F>| #[trigger] ev(r5__->0, a) == (if j5__ == 0 { fadd(fzero(), fmul(rows(m_inv@)[idx as int][0], y_next(state@)(a)[0])) } else { fadd(ev(o5->0, a), fmul(rows(m_inv@)[idx as int][j5__ as int], y_next(state@)(a)[j5__ as int])) }) by { }
//@ loop 6
            invariant n6__ == WIDTH - 1, i6__ <= n6__, idx < WIDTH, partial(acc, rows(m_reg@)[idx as int], w_mid(state@, rc_a@, partial_sbox), i6__ + 1)
            decreases n6__ - i6__
//@ at before-loop 6
            assert forall|a: Around<F>| #[trigger] ev(acc, a) == fadd(fzero(), fmul(rows(m_reg@)[idx as int][0], w_mid(state@, rc_a@, partial_sbox)(a)[0])) by { }
//@ at loop-begin 6
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
            let ghost o6 = acc;
//@ at loop-end 6
            assert forall|a: Around<F>| #[trigger] ev(acc, a) == fadd(ev(o6, a), fmul(rows(m_reg@)[idx as int][j6__ + 1], w_mid(state@, rc_a@, partial_sbox)(a)[j6__ + 1])) by { }
//@ loop 7
            invariant n7__ == WIDTH, i7__ <= n7__, idx < WIDTH, i7__ == 0 ==> r7__ is None, i7__ > 0 ==> r7__ is Some && partial(r7__->0, rows(m_inv@)[idx as int], y_next(state@), i7__ as int)
            decreases n7__ - i7__
//@ at loop-begin 7
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
            let ghost o7 = r7__;
//@ at loop-end 7
            assert forall|a: Around<F>| #[trigger] ev(r7__->0, a) == (if j7__ == 0 { fadd(fzero(), fmul(rows(m_inv@)[idx as int][0], y_next(state@)(a)[0])) } else { fadd(ev(o7->0, a), fmul(rows(m_inv@)[idx as int][j7__ as int], y_next(state@)(a)[j7__ as int])) }) by { }
//@ at before-callback 1
            assert forall|a: Around<F>| #[trigger] vanish(g1__@, a) <==> gate(a(s_partial.c(), 0), x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox)(a), y_pair(rows(m_inv@), state@, partial_sbox)(a)) by { lines_gate(g1__@, Expression::Query(Ghost(s_partial.c()), 0i32), x_pair(rows(m_reg@), state@, rc_a@, rc_b@, partial_sbox), y_pair(rows(m_inv@), state@, partial_sbox), a); }
//@ at loop-end 8
            assert forall|a: Around<F>| times(#[trigger] ev(v8__@[j8__ as int], a), ev(s_partial_single, a), x_single(rows(m_reg@), state@, rc_a@)(a)[j8__ as int], y_next(state@)(a)[j8__ as int]) by { assert(state@.len() == WIDTH); assert(x_single(rows(m_reg@), state@, rc_a@)(a)[j8__ as int] == dot(rows(m_reg@)[j8__ as int], w_single(state@, rc_a@)(a), WIDTH as nat)); assert(y_next(state@)(a)[j8__ as int] == a(state@[j8__ as int].c(), 1));}
            proof { lines_push(w8, v8__@, s_partial_single, x_single(rows(m_reg@), state@, rc_a@), y_next(state@)); }
//@ loop 8
            invariant n8__ == WIDTH, i8__ <= n8__, WIDTH >= 2, v8__@.len() == i8__, lines(v8__@, s_partial_single, x_single(rows(m_reg@), state@, rc_a@), y_next(state@))
            decreases n8__ - i8__
//@ at loop-begin 8
            let ghost w8 = v8__@;
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
//@ at loop-end 9
            assert forall|a: Around<F>| #[trigger] ev(r9__->0, a) == (if j9__ == 0 { fmul(rows(m_reg@)[next_idx as int][1], w_single(state@, rc_a@)(a)[1]) } else { fadd(ev(o9->0, a), fmul(rows(m_reg@)[next_idx as int][j9__ + 1], w_single(state@, rc_a@)(a)[j9__ + 1])) }) by { }
            proof { behind_step(o9, r9__->0, rows(m_reg@)[next_idx as int], w_single(state@, rc_a@), j9__ as int); }
//@ loop 9
            invariant n9__ == WIDTH - 1, i9__ <= n9__, next_idx < WIDTH, i9__ == 0 ==> r9__ is None, i9__ > 0 ==> r9__ is Some && behind(r9__->0, rows(m_reg@)[next_idx as int], w_single(state@, rc_a@), i9__ as int)
            decreases n9__ - i9__
//@ at loop-begin 9
            let ghost o9 = r9__;
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
//@ at before-callback 2
            assert forall|a: Around<F>| #[trigger] vanish(g2__@, a) <==> gate(a(s_partial_single.c(), 0), x_single(rows(m_reg@), state@, rc_a@)(a), y_next(state@)(a)) by { lines_gate(g2__@, Expression::Query(Ghost(s_partial_single.c()), 0i32), x_single(rows(m_reg@), state@, rc_a@), y_next(state@), a); }
//@ at loop-end 10
            assert forall|a: Around<F>| times(#[trigger] ev(v10__@[j10__ as int], a), ev(s_pad_and_add, a), x_pad(state@)(a)[j10__ as int], y_next(state@)(a)[j10__ as int]) by { assert(state@.len() == WIDTH); assert(y_next(state@)(a)[j10__ as int] == a(state@[j10__ as int].c(), 1));}
            proof { lines_push(w10, v10__@, s_pad_and_add, x_pad(state@), y_next(state@)); }
//@ loop 10
            invariant n10__ == WIDTH, i10__ <= n10__, RATE == WIDTH - 1, v10__@.len() == i10__, differ(c2__, x_pad(state@), y_next(state@), RATE as int), lines(v10__@, s_pad_and_add, x_pad(state@), y_next(state@))
            decreases n10__ - i10__
//@ at loop-begin 10
            let ghost w10 = v10__@;
            reveal(p5); reveal_with_fuel(ev, 8); reveal_with_fuel(dot, 3);
            broadcast use {super::f_add_comm, super::f_mul_comm, super::f_add_zero_l, super::evs, p5_steps};
//@ at before-callback 3
            assert forall|a: Around<F>| #[trigger] vanish(g3__@, a) <==> gate(a(s_pad_and_add.c(), 0), x_pad(state@)(a), y_next(state@)(a)) by { lines_gate(g3__@, Expression::Query(Ghost(s_pad_and_add.c()), 0i32), x_pad(state@), y_next(state@), a); }
//@ method construct
        ensures r.config == config
//@@end
// ---------------------------------------------------------------- the permutation
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    pub open spec fn h(self) -> int { self.half_full_rounds as int }
    pub open spec fn hp(self) -> int { self.half_partial_rounds as int }
    /// how many rows p partial rounds and the full ones take
    pub open spec fn depth(self, p: int) -> int { 2 * self.h() + self.hp() + p % 2 }
    pub open spec fn is_pair(self, y: int) -> bool { self.h() <= y < self.h() + self.hp() }
    pub open spec fn is_single(self, p: int, y: int) -> bool { self.h() + self.hp() <= y < self.h() + self.hp() + p % 2 }
    /// the number of rounds before row y
    pub open spec fn first(self, p: int, y: int) -> int { if y <= self.h() { y } else if y <= self.h() + self.hp() { self.h() + 2 * (y - self.h()) } else { p + y - self.hp() - p % 2 } }
    pub open spec fn sel_at(self, p: int, y: int) -> Selector { if self.is_pair(y) { self.s_partial } else if self.is_single(p, y) { self.s_partial_single } else { self.s_full } }
    /// the state in row y
    pub open spec fn st(self, s: Seq<F>, p: int, y: int) -> Seq<F> { rounds(s, self.m(), self.rc(), self.h(), p, self.first(p, y) as nat) }
    pub open spec fn p_at(self, s: Seq<F>, p: int, y: int) -> Option<F> { if self.is_pair(y) { Some(p5(fadd(self.st(s, p, y)[0], self.rc()[self.first(p, y)][0]))) } else { None } }
    /// the cells of the first n rows, and of the state behind them
    pub open spec fn upto(self, s: Seq<F>, p: int, n: int, x: Cell, y: int) -> Option<F> {
        if 0 <= y < n && self.in_row(self.sel_at(p, y), self.first(p, y), self.p_at(s, p, y), x) is Some { self.in_row(self.sel_at(p, y), self.first(p, y), self.p_at(s, p, y), x) }
        else if 0 <= y <= n { self.in_state(self.st(s, p, y), x) } else { None }
    }
    pub open spec fn laid(self, m: Cells<F>, s: Seq<F>, p: int, n: int) -> bool { forall|x: Cell, y: int| #[trigger] m(x, y) == self.upto(s, p, n, x, y) }
    pub open spec fn sized(self, p: int) -> bool {
        &&& 0 <= p < 0x1_0000_0000 && self.hp() == p / 2 && self.h() < 0x1_0000_0000 && self.round_constants@.len() == 2 * self.h() + p
    }
    pub proof fn row(self, s: Seq<F>, p: int, y: int)
        requires self.sized(p), 0 <= y < self.depth(p)
        ensures 0 <= self.first(p, y) < 2 * self.h() + p, self.is_pair(y) ==> self.first(p, y) + 1 < 2 * self.h() + p,
            self.is_pair(y) ==> self.st(s, p, y + 1) == part_s(part_s(self.st(s, p, y), self.m(), self.rc()[self.first(p, y)]), self.m(), self.rc()[self.first(p, y) + 1]),
            self.is_single(p, y) ==> self.st(s, p, y + 1) == part_s(self.st(s, p, y), self.m(), self.rc()[self.first(p, y)]),
            !self.is_pair(y) && !self.is_single(p, y) ==> self.st(s, p, y + 1) == full_s(self.st(s, p, y), self.m(), self.rc()[self.first(p, y)]),
    {
        reveal_with_fuel(rounds, 3);
    }
    pub proof fn one_row(self, s: Seq<F>, p: int, y: int, a: Cells<F>, b: Cells<F>)
        requires self.wf(), self.sized(p), 0 <= y < self.depth(p), self.laid(a, s, p, y), self.stepped(a, b, self.sel_at(p, y), y, self.first(p, y), self.p_at(s, p, y), self.st(s, p, y + 1))
        ensures self.laid(b, s, p, y + 1)
    {
        assert forall|x: Cell, k: int| #[trigger] b(x, k) == self.upto(s, p, y + 1, x, k) by {
            let v = a(x, k);
            col_kinds(self.rc_a@, x); col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
        }
    }
    /// words at row y of a region of which y rows are done
    pub open spec fn reached(self, m: Cells<F>, g: int, w: Seq<StateWord<F>>, s: Seq<F>, p: int, y: int) -> bool { self.laid(m, s, p, y) && self.placed(w, g, y, self.st(s, p, y)) }
}
pub proof fn rounds_len<F>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, h: int, p: int, n: nat) ensures rounds(s, m, rc, h, p, n).len() == s.len() decreases n { if n > 0 { rounds_len(s, m, rc, h, p, (n - 1) as nat); } }
pub proof fn values<F: PrimeField, const WIDTH: usize, const RATE: usize>(c: Pow5Config<F, WIDTH, RATE>, w: Seq<StateWord<F>>, g: int, s: Seq<F>, p: int, y: int)
    requires c.placed(w, g, y, c.st(s, p, y)), s.len() == WIDTH ensures sv(w) == c.st(s, p, y)
{
    rounds_len(s, c.m(), c.rc(), c.h(), p, c.first(p, y) as nat);
    assert(sv(w) =~= c.st(s, p, y));
}
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// what one permutation does: a region of its own, holding the rounds; the words returned are its last row
    pub open spec fn permuted(self, c: Circuit<F>, d: Circuit<F>, p: int, s: Seq<StateWord<F>>, r: Seq<StateWord<F>>) -> bool {
        let g = c.regions.len() as int;
        &&& d.regions.len() == g + 1 && d.regions.drop_last() =~= c.regions && self.laid(d.regions.last(), sv(s), p, self.depth(p))
        &&& d.links =~= c.links + self.entry(g, s) && d.table == c.table && d.perms == c.perms
        &&& self.placed(r, g, self.depth(p), rounds(sv(s), self.m(), self.rc(), self.h(), p, (2 * self.h() + p) as nat))
    }
}
impl<F: FromUniformBytes<64> + Ord, const WIDTH: usize, const RATE: usize> Pow5Chip<F, WIDTH, RATE> {
    pub fn config(&self) -> (r: &Pow5Config<F, WIDTH, RATE>) ensures *r == self.config { self.chip_config() }
}
//@@impl Chip<F>forPow5Chip<F,WIDTH,RATE> as Pow5Chip inherent chip_
//@ method chip_config
        ensures *r == self.config
//@@end
//@@impl PoseidonInstructions<F,S,WIDTH,RATE>forPow5Chip<F,WIDTH,RATE> as Pow5Chip inherent instr_
//@ method instr_permute
//@ opt layouter
//@ opt expand keep loops
//@ opt map result
        requires self.config.wf(), self.config.of::<S>(), self.config.sized(S::s_partial_rounds() as int)
        ensures r is Ok ==> self.config.permuted(old(layouter).circ(), final(layouter).circ(), S::s_partial_rounds() as int, initial_state@, (r->Ok_0)@)
//@ at begin
        let ghost (s, p, cfg, c, g) = (sv(initial_state@), S::s_partial_rounds() as int, self.config, layouter.circ(), layouter.circ().regions.len() as int);
        let ghost e = cfg.entry(g, initial_state@);
        let ghost mut b9 = blank::<F>();
//@ at before-loop 0
        proof {
            rounds_len(s, cfg.m(), cfg.rc(), cfg.h(), p, 0); reveal_with_fuel(rounds, 2);
            assert(cfg.laid(region.cells@, s, p, 0)) by {
                assert forall|x: Cell, k: int| #[trigger] region.cells@(x, k) == cfg.upto(s, p, 0, x, k) by { col_kinds(cfg.state@, x); }
            }
        }
//@ loop 0
            invariant config == &cfg, cfg.wf(), cfg.sized(p), s.len() == WIDTH, n0__ == config.h(), i0__ <= n0__, layouter.circ() == c,
                res is Ok ==> cfg.reached(region.cells@, g, (res->Ok_0).0@, s, p, 0 + i0__) && region.tag@ == (g, e)
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost (b0, r0) = (region.cells@, res);
        proof { cfg.row(s, p, 0 + j0__); if res is Ok { values(cfg, (res->Ok_0).0@, g, s, p, 0 + j0__); } }
//@ at loop-end 0
        proof { if res is Ok { cfg.one_row(s, p, 0 + j0__, b0, region.cells@); } }
//@ loop 1
            invariant config == &cfg, cfg.wf(), cfg.sized(p), s.len() == WIDTH, n1__ == config.hp(), i1__ <= n1__, layouter.circ() == c,
                res is Ok ==> cfg.reached(region.cells@, g, (res->Ok_0).0@, s, p, cfg.h() + i1__) && region.tag@ == (g, e)
            decreases n1__ - i1__
//@ at loop-begin 1
        let ghost (b1, r1) = (region.cells@, res);
        proof { cfg.row(s, p, cfg.h() + j1__); if res is Ok { values(cfg, (res->Ok_0).0@, g, s, p, cfg.h() + j1__); } }
//@ at loop-end 1
        proof { if res is Ok { cfg.one_row(s, p, cfg.h() + j1__, b1, region.cells@); } }
//@ at after-loop 1
        assert forall|x: usize| #![trigger x & 1] #![trigger x % 2] x & 1 == x % 2 by { assert(x & 1 == x % 2) by (bit_vector); }
        proof { b9 = region.cells@; if res is Ok { values(cfg, (res->Ok_0).0@, g, s, p, cfg.h() + cfg.hp()); if p % 2 == 1 { cfg.row(s, p, cfg.h() + cfg.hp()); } } }
//@ at before-loop 2
        proof {
            let u = S::s_partial_rounds() as usize;
            assert(u & 1usize == u % 2usize) by (bit_vector);
            if p % 2 == 1 { cfg.one_row(s, p, cfg.h() + cfg.hp(), b9, region.cells@); }
        }
//@ loop 2
            invariant config == &cfg, cfg.wf(), cfg.sized(p), s.len() == WIDTH, n2__ == config.h(), i2__ <= n2__, odd_offset == p % 2, layouter.circ() == c,
                res is Ok ==> cfg.reached(region.cells@, g, (res->Ok_0).0@, s, p, cfg.h() + cfg.hp() + p % 2 + i2__) && region.tag@ == (g, e)
            decreases n2__ - i2__
//@ at loop-begin 2
        let ghost (b2, r2) = (region.cells@, res);
        proof { cfg.row(s, p, cfg.h() + cfg.hp() + p % 2 + j2__); if res is Ok { values(cfg, (res->Ok_0).0@, g, s, p, cfg.h() + cfg.hp() + p % 2 + j2__); } }
//@ at loop-end 2
        proof { if res is Ok { cfg.one_row(s, p, cfg.h() + cfg.hp() + p % 2 + j2__, b2, region.cells@); } }
//@@end
// ---------------------------------------------------------------- the sponge around it
pub trait Domain<F: Field, const RATE: usize> {
    spec fn s_cap() -> F;
    fn initial_capacity_element() -> (r: F) ensures r == Self::s_cap();
}
//@@file poseidon-base/src/primitives.rs
//@@type SpongeRate
//@@struct Absorbing public
//@@struct Squeezing public
//@@file poseidon-circuit/src/poseidon.rs
//@@enum PaddedWord
impl<F: Field> Clone for PaddedWord<F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the value a word of the padded input stands for
pub open spec fn wv<F: Field>(w: Option<PaddedWord<F>>) -> F { match w->0 { PaddedWord::Message(c) => c.v@, PaddedWord::Padding(v) => v } }
pub open spec fn wvs<F: Field>(w: Seq<Option<PaddedWord<F>>>) -> Seq<F> { Seq::new(w.len(), |i: int| wv(w[i])) }
pub open spec fn start<F>(cap: F, n: int) -> Seq<F> { Seq::new((n + 1) as nat, |i: int| if i < n { fzero() } else { cap }) }
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// words tied to the state columns of a row
    pub open spec fn ties(self, g: int, o: int, at: Seq<At>) -> Seq<Set<At>> { Seq::new(at.len(), |i: int| tied(at[i], (g, self.state@[i].c(), o))) }
    pub open spec fn began(self, c: Circuit<F>, d: Circuit<F>, cap: F, r: Seq<StateWord<F>>) -> bool {
        let (g, z) = (c.regions.len() as int, start(cap, RATE as int));
        &&& d.regions.len() == g + 1 && d.regions.drop_last() =~= c.regions && row_put(blank::<F>(), d.regions.last(), cs(self.state@), 0, z, WIDTH as int)
        &&& d.links =~= c.links + self.ties(g, 0, Seq::new(WIDTH as nat, |i: int| constant_at(z[i]))) && d.table == c.table && d.perms == c.perms
        &&& self.placed(r, g, 0, z)
    }
    /// where the words come from: the message's cells, the cells of the fixed column for the padding
    pub open spec fn sources(self, g: int, w: Seq<Option<PaddedWord<F>>>) -> Seq<At> { Seq::new(w.len(), |i: int| match w[i]->0 { PaddedWord::Message(c) => c.at@, PaddedWord::Padding(v) => (g, self.rc_b@[i].c(), 1int) }) }
    /// n is m with the first k words of the input in row 1
    pub open spec fn fed(self, m: Cells<F>, n: Cells<F>, w: Seq<Option<PaddedWord<F>>>, k: int) -> bool {
        forall|x: Cell, y: int| #[trigger] n(x, y) == self.feed(m, w, k, x, y)
    }
    pub open spec fn feed(self, m: Cells<F>, w: Seq<Option<PaddedWord<F>>>, k: int, x: Cell, y: int) -> Option<F> {
        if y == 1 && has(cs(self.state@), x, k) { Some(wv(w[cs(self.state@).index_of(x)])) }
        else if y == 1 && has(cs(self.rc_b@), x, k) && w[cs(self.rc_b@).index_of(x)]->0 is Padding { Some(wv(w[cs(self.rc_b@).index_of(x)])) } else { m(x, y) }
    }
    proof fn feed_one(self, m: Cells<F>, a: Cells<F>, b: Cells<F>, c: Cells<F>, w: Seq<Option<PaddedWord<F>>>, k: int)
        requires self.wf(), self.fed(m, a, w, k), 0 <= k < w.len(), w.len() < WIDTH, if w[k]->0 is Padding { put(a, b, self.rc_b@[k].c(), 1, wv(w[k])) } else { b == a }, put(b, c, self.state@[k].c(), 1, wv(w[k]))
        ensures self.fed(m, c, w, k + 1)
    {
        assert(cs(self.state@)[k] == self.state@[k].c()); assert(cs(self.rc_b@)[k] == self.rc_b@[k].c());
        assert(cs(self.state@).contains(cs(self.state@)[k]) && cs(self.rc_b@).contains(cs(self.rc_b@)[k]));
        assert forall|x: Cell, y: int| #[trigger] c(x, y) == self.feed(m, w, k + 1, x, y) by {
            col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
            let (u, v) = (a(x, y), b(x, y));
        }
    }
    pub open spec fn out(self, s: Seq<F>, w: Seq<F>) -> Seq<F> { Seq::new(WIDTH as nat, |i: int| if i < RATE { fadd(s[i], w[i]) } else { s[i] }) }
    /// the cells of one addition of words
    pub open spec fn add_cell(self, s: Seq<F>, w: Seq<Option<PaddedWord<F>>>, x: Cell, y: int) -> Option<F> {
        let (st, kb) = (cs(self.state@), cs(self.rc_b@));
        if x == self.s_pad_and_add.c() && y == 1 { Some(fone()) }
        else if y == 0 && st.contains(x) { Some(s[st.index_of(x)]) }
        else if y == 1 && has(st, x, RATE as int) { Some(wv(w[st.index_of(x)])) }
        else if y == 1 && has(kb, x, RATE as int) && w[kb.index_of(x)]->0 is Padding { Some(wv(w[kb.index_of(x)])) }
        else if y == 2 && st.contains(x) { Some(self.out(s, wvs(w))[st.index_of(x)]) } else { None }
    }
    pub open spec fn add_laid(self, m: Cells<F>, s: Seq<F>, w: Seq<Option<PaddedWord<F>>>) -> bool { forall|x: Cell, y: int| #[trigger] m(x, y) == self.add_cell(s, w, x, y) }
    proof fn add_all(self, m1: Cells<F>, m2: Cells<F>, n2: Cells<F>, m3: Cells<F>, n3: Cells<F>, m4: Cells<F>, s: Seq<F>, w: Seq<Option<PaddedWord<F>>>)
        requires self.wf(), RATE == WIDTH - 1, w.len() == RATE, self.near(blank::<F>(), m1, self.s_pad_and_add, 1, None), row_put(m1, m2, cs(self.state@), 0, s, WIDTH as int), self.near(m2, n2, self.s_pad_and_add, 1, None),
            self.fed(n2, m3, w, RATE as int), self.near(m3, n3, self.s_pad_and_add, 1, None), row_put(n3, m4, cs(self.state@), 2, self.out(s, wvs(w)), WIDTH as int),
            m1(self.s_pad_and_add.c(), 1) == Some(fone::<F>()) || n2(self.s_pad_and_add.c(), 1) == Some(fone::<F>()) || n3(self.s_pad_and_add.c(), 1) == Some(fone::<F>()),
        ensures self.add_laid(m4, s, w)
    {
        assert forall|x: Cell, y: int| #[trigger] m4(x, y) == self.add_cell(s, w, x, y) by {
            col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
            let (a, b, c, d, e, f) = (m1(x, y), m2(x, y), n2(x, y), m3(x, y), n3(x, y), m4(x, y));
        }
    }
    pub open spec fn took(self, c: Circuit<F>, d: Circuit<F>, s: Seq<StateWord<F>>, w: Seq<Option<PaddedWord<F>>>, r: Seq<StateWord<F>>) -> bool {
        let g = c.regions.len() as int;
        &&& d.regions.len() == g + 1 && d.regions.drop_last() =~= c.regions && self.add_laid(d.regions.last(), sv(s), w)
        &&& d.links =~= c.links + self.entry(g, s) + self.ties(g, 1, self.sources(g, w)) && d.table == c.table && d.perms == c.perms
        &&& self.placed(r, g, 2, self.out(sv(s), wvs(w)))
    }
}
//@@file poseidon-circuit/src/poseidon/pow5.rs
//@@impl PoseidonSpongeInstructions<F,S,D,WIDTH,RATE>forPow5Chip<F,WIDTH,RATE> as Pow5Chip inherent sponge_
//@ method sponge_initial_state
//@ opt layouter
//@ opt expand keep loops
//@ opt map result
        requires self.config.wf(), RATE == WIDTH - 1
        ensures r is Ok ==> self.config.began(old(layouter).circ(), final(layouter).circ(), D::s_cap(), (r->Ok_0)@)
//@ at begin
        let ghost (z, cfg, c, g) = (start(D::s_cap(), RATE as int), self.config, layouter.circ(), layouter.circ().regions.len() as int);
        let ghost e = cfg.ties(g, 0, Seq::new(WIDTH as nat, |i: int| constant_at(z[i])));
        let ghost mut b9 = blank::<F>();
//@ loop 0
            invariant config == &cfg, cfg.wf(), RATE == WIDTH - 1, n0__ == RATE, i0__ <= n0__, z == start(D::s_cap(), RATE as int), row_put(blank::<F>(), region.cells@, cs(cfg.state@), 0, z, i0__ as int), words(state@, g, cfg.state@, 0, z, i0__ as int),
                region.tag@.0 == g, region.tag@.1 =~= e.take(i0__ as int), e == cfg.ties(g, 0, Seq::new(WIDTH as nat, |i: int| constant_at(z[i])))
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(blank::<F>(), b0, region.cells@, cs(cfg.state@), 0, z, j0__ as int); }
//@ at after-loop 0
        proof { b9 = region.cells@; }
//@ at tail
        proof { row_one(blank::<F>(), b9, layouter.circ().regions.last(), cs(cfg.state@), 0, z, RATE as int); assert(e.take(WIDTH as int) =~= e); }
//@ method sponge_add_input
//@ opt layouter
//@ opt expand keep loops
//@ opt map result
        requires self.config.wf(), RATE == WIDTH - 1, forall|i: int| 0 <= i < RATE ==> (#[trigger] input.0@[i]) is Some
        ensures r is Ok ==> self.config.took(old(layouter).circ(), final(layouter).circ(), initial_state@, input.0@, (r->Ok_0)@)
//@ at begin
        let ghost (s, w, cfg, c, g) = (sv(initial_state@), input.0@, self.config, layouter.circ(), layouter.circ().regions.len() as int);
        let ghost (e, f, given) = (cfg.entry(g, initial_state@), cfg.ties(g, 1, cfg.sources(g, input.0@)), initial_state);
        let ghost mut m1 = blank::<F>(); let ghost mut m2 = blank::<F>(); let ghost mut m3 = blank::<F>(); let ghost mut n2 = blank::<F>(); let ghost mut n3 = blank::<F>();
//@ at before-loop 0
        proof { m1 = region.cells@; }
//@ loop 0
            invariant config == &cfg, cfg.wf(), n0__ == WIDTH, i0__ <= n0__, s == sv(initial_state@), row_put(m1, region.cells@, cs(cfg.state@), 0, s, i0__ as int), words(t0__@, g, cfg.state@, 0, s, i0__ as int),
                region.tag@.0 == g, region.tag@.1 =~= e.take(i0__ as int), e == cfg.entry(g, initial_state@)
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost b0 = region.cells@;
//@ at loop-end 0
        proof { row_one(m1, b0, region.cells@, cs(cfg.state@), 0, s, j0__ as int); }
//@ at after-loop 0
        proof { m2 = region.cells@; }
//@ at before-loop 1
        proof { n2 = region.cells@; assert(e.take(WIDTH as int) =~= e); }
//@ loop 1
            invariant config == &cfg, cfg.wf(), RATE == WIDTH - 1, n1__ == RATE, i1__ <= n1__, w == input.0@, forall|i: int| 0 <= i < RATE ==> (#[trigger] w[i]) is Some, cfg.fed(n2, region.cells@, w, i1__ as int), words(t1__@, g, cfg.state@, 1, wvs(w), i1__ as int),
                region.tag@.0 == g, region.tag@.1 =~= e + f.take(i1__ as int), f == cfg.ties(g, 1, cfg.sources(g, w))
            decreases n1__ - i1__
//@ at loop-begin 1
        let ghost b1 = region.cells@;
        let ghost mut b2 = region.cells@;
        let ghost k1 = w[j1__ as int];
//@ at loop-end 1
        proof { cfg.feed_one(n2, b1, if k1->0 is Padding { |x: Cell, y: int| if x == cfg.rc_b@[j1__ as int].c() && y == 1 { Some(wv(k1)) } else { b1(x, y) } } else { b1 }, region.cells@, w, j1__ as int); }
//@ at after-loop 1
        proof { m3 = region.cells@; }
//@ at before-loop 2
        proof { n3 = region.cells@; assert(f.take(RATE as int) =~= f); }
//@ loop 2
            invariant config == &cfg, cfg.wf(), RATE == WIDTH - 1, n2__ == WIDTH, i2__ <= n2__, w.len() == RATE, s.len() == WIDTH, words(initial_state@, g, cfg.state@, 0, s, WIDTH as int), words(input@, g, cfg.state@, 1, wvs(w), RATE as int),
                row_put(n3, region.cells@, cs(cfg.state@), 2, cfg.out(s, wvs(w)), i2__ as int), words(t2__@, g, cfg.state@, 2, cfg.out(s, wvs(w)), i2__ as int), region.tag@ == (g, e + f)
            decreases n2__ - i2__
//@ at loop-begin 2
        let ghost b2 = region.cells@;
        broadcast use super::f_add_comm;
        assert(initial_state@[j2__ as int].0.v@ == s[j2__ as int]);
        assert(j2__ < RATE ==> input@[j2__ as int].0.v@ == wvs(w)[j2__ as int]);
//@ at loop-end 2
        proof { row_one(n3, b2, region.cells@, cs(cfg.state@), 2, cfg.out(s, wvs(w)), j2__ as int); }
//@ at after-loop 2
        proof { cfg.add_all(m1, m2, n2, m3, n3, region.cells@, s, w); }
//@ method sponge_get_output
//@ opt expand keep loops
        requires RATE < WIDTH
        ensures forall|i: int| 0 <= i < RATE ==> #[trigger] r.0@[i] == Some(state@[i])
//@ loop 0
            invariant n0__ == RATE, RATE < WIDTH, i0__ <= n0__, v0__@.len() == i0__, forall|i: int| 0 <= i < i0__ ==> #[trigger] v0__@[i] == Some(state@[i])
            decreases n0__ - i0__
//@@end
