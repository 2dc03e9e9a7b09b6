#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces, private_bounds, unused_assignments)]
use core::marker::PhantomData;
use core::ops::*;
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
/// a failed run-time assertion: the call does not return
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
pub open spec fn sub0_s(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub fn sub0(a: usize, b: usize) -> (r: usize) ensures r == sub0_s(a as int, b as int) { if a >= b { a - b } else { 0 } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---------------------------------------------------------------- the field (assumed contracts)
pub uninterp spec fn fnat<F>(x: nat) -> F;
pub uninterp spec fn modulus<F>() -> nat;
pub uninterp spec fn fadd<F>(a: F, b: F) -> F;
pub uninterp spec fn fsub<F>(a: F, b: F) -> F;
pub uninterp spec fn fmul<F>(a: F, b: F) -> F;
pub uninterp spec fn fneg<F>(a: F) -> F;
pub uninterp spec fn finv<F>(a: F) -> F;
pub open spec fn fzero<F>() -> F { fnat::<F>(0) }
pub open spec fn fone<F>() -> F { fnat::<F>(1) }
pub trait Field: 'static + Sized + Copy + Clone + PartialEq + Eq + Add<Self, Output = Self> + AddAssign<Self> + Mul<Self, Output = Self> {
    const ZERO: Self;
    const ONE: Self;
    fn invert(&self) -> (r: CtOption<Self>) ensures r.s() == (if *self == fzero::<Self>() { None } else { Some(finv(*self)) });
}
pub struct CtOption<F> { v: Option<F> }
impl<F> CtOption<F> {
    pub closed spec fn s(&self) -> Option<F> { self.v }
    pub fn unwrap_or(self, d: F) -> (r: F) ensures r == (match self.s() { Some(v) => v, None => d }) { match self.v { Some(v) => v, None => d } }
}
pub trait PrimeField: Field + From<u64> + Sub<Self, Output = Self> {
    fn from_u128(x: u128) -> (r: Self) ensures r == fnat::<Self>(x as nat);
}
pub broadcast axiom fn ax_zero<F: Field>() ensures #[trigger] F::ZERO == fzero::<F>();
pub broadcast axiom fn ax_one<F: Field>() ensures #[trigger] F::ONE == fone::<F>();
pub broadcast axiom fn ax_a1<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_req(a, b);
pub broadcast axiom fn ax_a2<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_spec(a, b) == fadd(a, b);
pub broadcast axiom fn ax_a3<F: Field>() ensures #[trigger] <F as AddSpec<F>>::obeys_add_spec();
pub broadcast axiom fn ax_aa1<F: Field>(a: F, b: F) ensures #[trigger] <F as AddAssignSpec<F>>::add_assign_req(&a, b);
pub broadcast axiom fn ax_aa2<F: Field>(a: F, b: F) ensures #[trigger] <F as AddAssignSpec<F>>::add_assign_spec(&a, b) == fadd(a, b);
pub broadcast axiom fn ax_aa3<F: Field>() ensures #[trigger] <F as AddAssignSpec<F>>::obeys_add_assign_spec();
pub broadcast axiom fn ax_m1<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_req(a, b);
pub broadcast axiom fn ax_m2<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_spec(a, b) == fmul(a, b);
pub broadcast axiom fn ax_m3<F: Field>() ensures #[trigger] <F as MulSpec<F>>::obeys_mul_spec();
pub broadcast axiom fn ax_e1<F: Field>() ensures #[trigger] <F as PartialEqSpec<F>>::obeys_eq_spec();
pub broadcast axiom fn ax_e2<F: Field>(a: F, b: F) ensures #[trigger] <F as PartialEqSpec<F>>::eq_spec(&a, &b) == (a == b);
pub broadcast axiom fn ax_s1<F: PrimeField>(a: F, b: F) ensures #[trigger] <F as SubSpec<F>>::sub_req(a, b);
pub broadcast axiom fn ax_s2<F: PrimeField>(a: F, b: F) ensures #[trigger] <F as SubSpec<F>>::sub_spec(a, b) == fsub(a, b);
pub broadcast axiom fn ax_s3<F: PrimeField>() ensures #[trigger] <F as SubSpec<F>>::obeys_sub_spec();
pub broadcast axiom fn ax_f1<F: PrimeField>(x: u64) ensures #[trigger] <F as FromSpec<u64>>::from_spec(x) == fnat::<F>(x as nat);
pub broadcast axiom fn ax_f2<F: PrimeField>() ensures #[trigger] <F as FromSpec<u64>>::obeys_from_spec();
pub broadcast group axp { ax_s1, ax_s2, ax_s3, ax_f1, ax_f2 }
pub broadcast group ax { ax_e1, ax_e2, ax_zero, ax_one, ax_a1, ax_a2, ax_a3, ax_aa1, ax_aa2, ax_aa3, ax_m1, ax_m2, ax_m3 }
// the laws of a field that the arguments use
pub broadcast axiom fn f_mul_zero<F: Field>(a: F, b: F) ensures #[trigger] fmul(a, b) == fzero::<F>() <==> (a == fzero::<F>() || b == fzero::<F>());
pub broadcast axiom fn f_mul_one_l<F: Field>(a: F) ensures #[trigger] fmul(fone::<F>(), a) == a;
pub broadcast axiom fn f_mul_one_r<F: Field>(a: F) ensures #[trigger] fmul(a, fone::<F>()) == a;
pub broadcast axiom fn f_add_zero_l<F: Field>(a: F) ensures #[trigger] fadd(fzero::<F>(), a) == a;
pub broadcast axiom fn f_add_zero_r<F: Field>(a: F) ensures #[trigger] fadd(a, fzero::<F>()) == a;
pub broadcast axiom fn f_sub_zero_r<F: Field>(a: F) ensures #[trigger] fsub(a, fzero::<F>()) == a;
pub broadcast axiom fn f_sub_eq<F: Field>(a: F, b: F) ensures #[trigger] fsub(a, b) == fzero::<F>() <==> a == b;
pub broadcast axiom fn f_sub_sub<F: Field>(a: F, b: F, c: F) ensures #[trigger] fsub(fsub(a, b), c) == fsub(a, fadd(b, c));
pub broadcast axiom fn f_add_comm<F: Field>(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn f_mul_comm<F: Field>(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn f_add_assoc<F: Field>(a: F, b: F, c: F) ensures #![trigger fadd(fadd(a, b), c)] #![trigger fadd(a, fadd(b, c))] fadd(fadd(a, b), c) == fadd(a, fadd(b, c));
pub broadcast axiom fn f_mul_assoc<F: Field>(a: F, b: F, c: F) ensures #![trigger fmul(fmul(a, b), c)] #![trigger fmul(a, fmul(b, c))] fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub axiom fn f_mul_add<F: Field>(a: F, b: F, c: F) ensures fmul(fadd(a, b), c) == fadd(fmul(a, c), fmul(b, c));
pub axiom fn f_add_mul<F: Field>(c: F, a: F, b: F) ensures fmul(c, fadd(a, b)) == fadd(fmul(c, a), fmul(c, b));
/// sums and products in any order and grouping
pub broadcast group ring { f_add_comm, f_mul_comm, f_add_assoc, f_mul_assoc }
pub broadcast axiom fn f_zero_one<F: Field>() ensures #[trigger] fnat::<F>(0) != fnat::<F>(1);
pub axiom fn f_inv<F: Field>(a: F) requires a != fzero::<F>() ensures fmul(a, finv(a)) == fone::<F>();
// numbers in the field
pub axiom fn fnat_add<F: Field>(x: nat, y: nat) ensures fadd(fnat::<F>(x), fnat::<F>(y)) == fnat::<F>(x + y);
pub axiom fn fnat_inj<F: Field>(x: nat, y: nat) requires x < modulus::<F>(), y < modulus::<F>(), fnat::<F>(x) == fnat::<F>(y) ensures x == y;
pub broadcast group laws { f_mul_zero, f_mul_one_l, f_mul_one_r, f_add_zero_l, f_add_zero_r, f_sub_zero_r, f_sub_eq, f_sub_sub, f_zero_one }

//@@include digest.vx
// ---------------------------------------------------------------- halo2: constraint system (shims with contracts)
pub struct Advice; pub struct Fixed; pub struct Any;
pub trait ColumnType: Sized { spec fn cell(i: int) -> Cell; }
/// a column or selector, as the assignment sees it
pub enum Cell { Advice(int), Fixed(int), Selector(int) }
impl ColumnType for Advice { open spec fn cell(i: int) -> Cell { Cell::Advice(i) } }
impl ColumnType for Fixed { open spec fn cell(i: int) -> Cell { Cell::Fixed(i) } }
/// a column of either kind
pub uninterp spec fn any_cell(i: int) -> Cell;
impl ColumnType for Any { open spec fn cell(i: int) -> Cell { any_cell(i) } }
pub struct Column<T> { pub index: usize, pub t: PhantomData<T> }
impl<T> Copy for Column<T> {}
impl<T> Clone for Column<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: ColumnType> Column<T> { pub open spec fn c(self) -> Cell { T::cell(self.index as int) } }
pub struct Selector(pub usize);
impl Copy for Selector {}
impl Clone for Selector { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Selector { pub open spec fn c(self) -> Cell { Cell::Selector(self.0 as int) } }
pub struct TableColumn { pub index: usize }
impl Copy for TableColumn {}
impl Clone for TableColumn { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub struct Rotation(pub i32);
impl Rotation {
    pub fn cur() -> (r: Rotation) ensures r.0 == 0 { Rotation(0) }
    pub fn prev() -> (r: Rotation) ensures r.0 == -1 { Rotation(-1) }
    pub fn next() -> (r: Rotation) ensures r.0 == 1 { Rotation(1) }
}
/// the values around one row: cell of a column at a rotation
pub type Around<F> = spec_fn(Cell, int) -> F;
pub enum Expression<F> {
    Constant(F),
    Query(Ghost<Cell>, i32),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Difference(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Negated(Box<Expression<F>>),
}
pub open spec fn ev<F>(e: Expression<F>, a: Around<F>) -> F decreases e {
    match e {
        Expression::Constant(c) => c,
        Expression::Query(c, r) => a(c@, r as int),
        Expression::Sum(x, y) => fadd(ev(*x, a), ev(*y, a)),
        Expression::Difference(x, y) => fsub(ev(*x, a), ev(*y, a)),
        Expression::Product(x, y) => fmul(ev(*x, a), ev(*y, a)),
        Expression::Negated(x) => fneg(ev(*x, a)),
    }
}
impl<F> Clone for Expression<F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<F> Add for Expression<F> { type Output = Expression<F>; fn add(self, y: Self) -> Self { Expression::Sum(Box::new(self), Box::new(y)) } }
impl<F> AddSpecImpl for Expression<F> { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, y: Self) -> bool { true } open spec fn add_spec(self, y: Self) -> Self { Expression::Sum(Box::new(self), Box::new(y)) } }
impl<F> Sub for Expression<F> { type Output = Expression<F>; fn sub(self, y: Self) -> Self { Expression::Difference(Box::new(self), Box::new(y)) } }
impl<F> SubSpecImpl for Expression<F> { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, y: Self) -> bool { true } open spec fn sub_spec(self, y: Self) -> Self { Expression::Difference(Box::new(self), Box::new(y)) } }
impl<F> Mul for Expression<F> { type Output = Expression<F>; fn mul(self, y: Self) -> Self { Expression::Product(Box::new(self), Box::new(y)) } }
impl<F> MulSpecImpl for Expression<F> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, y: Self) -> bool { true } open spec fn mul_spec(self, y: Self) -> Self { Expression::Product(Box::new(self), Box::new(y)) } }
impl<F: Copy> Mul<F> for Expression<F> { type Output = Expression<F>; fn mul(self, y: F) -> Self { Expression::Product(Box::new(self), Box::new(Expression::Constant(y))) } }
impl<F: Copy> MulSpecImpl<F> for Expression<F> { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, y: F) -> bool { true } open spec fn mul_spec(self, y: F) -> Self { Expression::Product(Box::new(self), Box::new(Expression::Constant(y))) } }
/// the content of a lookup table column
pub type Tables<F> = spec_fn(TableColumn, int) -> F;
pub struct ConstraintSystem<F> {
    pub gates: Ghost<Seq<Expression<F>>>,
    pub lookups: Ghost<Seq<Seq<(Expression<F>, TableColumn)>>>,
    pub advices: Ghost<nat>, pub fixeds: Ghost<nat>, pub selectors: Ghost<nat>, pub tables: Ghost<nat>,
}
/// what create_gate takes
pub trait Gates<F>: Sized { spec fn exprs(&self) -> Seq<Expression<F>>; }
impl<F> Gates<F> for Vec<Expression<F>> { open spec fn exprs(&self) -> Seq<Expression<F>> { self@ } }
impl<F, const N: usize> Gates<F> for [Expression<F>; N] { open spec fn exprs(&self) -> Seq<Expression<F>> { self@ } }
pub struct Constraints<F> { pub q: Expression<F>, pub c: Vec<Expression<F>> }
impl<F> Constraints<F> { pub fn with_selector(q: Expression<F>, c: Vec<Expression<F>>) -> (r: Self) ensures r.q == q, r.c@ == c@ { Constraints { q, c } } }
impl<F> Gates<F> for Constraints<F> { open spec fn exprs(&self) -> Seq<Expression<F>> { selected(self.q, self.c@) } }
/// every constraint times the selector
pub open spec fn selected<F>(q: Expression<F>, c: Seq<Expression<F>>) -> Seq<Expression<F>> { Seq::new(c.len(), |i: int| Expression::Product(Box::new(q), Box::new(c[i]))) }
pub open spec fn vanish<F>(g: Seq<Expression<F>>, a: Around<F>) -> bool { forall|i: int| 0 <= i < g.len() ==> ev(#[trigger] g[i], a) == fzero::<F>() }
pub open spec fn found<F>(l: Seq<(Expression<F>, TableColumn)>, a: Around<F>, t: Tables<F>) -> bool { exists|r: int| #[trigger] is_row(r) && forall|i: int| 0 <= i < l.len() ==> ev((#[trigger] l[i]).0, a) == t(l[i].1, r) }
pub open spec fn is_row(r: int) -> bool { r >= 0 }
impl<F: Field> ConstraintSystem<F> {
    /// every constraint holds at a row with these values around it
    pub open spec fn sat(&self, a: Around<F>, t: Tables<F>) -> bool {
        vanish(self.gates@, a) && forall|i: int| 0 <= i < self.lookups@.len() ==> found(#[trigger] self.lookups@[i], a, t)
    }
    pub open spec fn same_but_columns(&self, o: &Self) -> bool { self.gates == o.gates && self.lookups == o.lookups }
    #[verifier::external_body]
    pub fn advice_column(&mut self) -> (r: Column<Advice>)
        ensures r.index == old(self).advices@, final(self).advices@ == old(self).advices@ + 1, final(self).gates == old(self).gates, final(self).lookups == old(self).lookups,
            final(self).fixeds == old(self).fixeds, final(self).selectors == old(self).selectors, final(self).tables == old(self).tables { unimplemented!() }
    #[verifier::external_body]
    pub fn fixed_column(&mut self) -> (r: Column<Fixed>)
        ensures r.index == old(self).fixeds@, final(self).fixeds@ == old(self).fixeds@ + 1, final(self).gates == old(self).gates, final(self).lookups == old(self).lookups,
            final(self).advices == old(self).advices, final(self).selectors == old(self).selectors, final(self).tables == old(self).tables { unimplemented!() }
    #[verifier::external_body]
    pub fn complex_selector(&mut self) -> (r: Selector)
        ensures r.0 == old(self).selectors@, final(self).selectors@ == old(self).selectors@ + 1, final(self).gates == old(self).gates, final(self).lookups == old(self).lookups,
            final(self).advices == old(self).advices, final(self).fixeds == old(self).fixeds, final(self).tables == old(self).tables { unimplemented!() }
    #[verifier::external_body]
    pub fn selector(&mut self) -> (r: Selector)
        ensures r.0 == old(self).selectors@, final(self).selectors@ == old(self).selectors@ + 1, final(self).gates == old(self).gates, final(self).lookups == old(self).lookups,
            final(self).advices == old(self).advices, final(self).fixeds == old(self).fixeds, final(self).tables == old(self).tables { unimplemented!() }
    #[verifier::external_body]
    pub fn lookup_table_column(&mut self) -> (r: TableColumn)
        ensures r.index == old(self).tables@, final(self).tables@ == old(self).tables@ + 1, final(self).gates == old(self).gates, final(self).lookups == old(self).lookups,
            final(self).advices == old(self).advices, final(self).fixeds == old(self).fixeds, final(self).selectors == old(self).selectors { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_equality<T>(&mut self, c: Column<T>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_advice(&self, c: Column<Advice>, r: Rotation) -> (e: Expression<F>) ensures e == Expression::<F>::Query(Ghost(c.c()), r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_fixed(&self, c: Column<Fixed>, r: Rotation) -> (e: Expression<F>) ensures e == Expression::<F>::Query(Ghost(c.c()), r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_selector(&self, s: Selector) -> (e: Expression<F>) ensures e == Expression::<F>::Query(Ghost(s.c()), 0i32) { unimplemented!() }
    pub fn create_gate<G: Gates<F>>(&mut self, g: G)
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(self).sat(a, t) == (old(self).sat(a, t) && vanish(g.exprs(), a)),
            final(self).gates@ == old(self).gates@ + g.exprs(), final(self).lookups == old(self).lookups, final(self).advices == old(self).advices, final(self).fixeds == old(self).fixeds,
            final(self).selectors == old(self).selectors, final(self).tables == old(self).tables
    {
        self.gates = Ghost(self.gates@ + g.exprs());
        proof { sat_gate(old(self), self, g.exprs()); }
    }
    pub fn lookup(&mut self, l: Vec<(Expression<F>, TableColumn)>)
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(self).sat(a, t) == (old(self).sat(a, t) && found(l@, a, t)),
            final(self).lookups@ == old(self).lookups@.push(l@), final(self).gates == old(self).gates, final(self).advices == old(self).advices, final(self).fixeds == old(self).fixeds,
            final(self).selectors == old(self).selectors, final(self).tables == old(self).tables 
    {
        self.lookups = Ghost(self.lookups@.push(l@));
        proof { sat_lookup(old(self), self, l@); }
    }
}
pub open spec fn vanish_at<F>(g: Seq<Expression<F>>, i: int, a: Around<F>) -> bool { i < g.len() ==> ev(g[i], a) == fzero::<F>() }
/// short lists, one by one
pub broadcast proof fn vanish_short<F>(g: Seq<Expression<F>>, a: Around<F>)
    ensures g.len() <= 6 ==> (#[trigger] vanish(g, a) <==> vanish_at(g, 0, a) && vanish_at(g, 1, a) && vanish_at(g, 2, a) && vanish_at(g, 3, a) && vanish_at(g, 4, a) && vanish_at(g, 5, a))
{
    if g.len() <= 6 && vanish_at(g, 0, a) && vanish_at(g, 1, a) && vanish_at(g, 2, a) && vanish_at(g, 3, a) && vanish_at(g, 4, a) && vanish_at(g, 5, a) {
        assert forall|i: int| 0 <= i < g.len() implies ev(#[trigger] g[i], a) == fzero::<F>() by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
    }
    if vanish(g, a) { assert forall|i: int| 0 <= i < g.len() implies ev(#[trigger] g[i], a) == fzero::<F>() by {} }
}
pub broadcast proof fn found_one<F>(l: Seq<(Expression<F>, TableColumn)>, a: Around<F>, t: Tables<F>)
    ensures l.len() == 1 ==> (#[trigger] found(l, a, t) <==> exists|r: int| #[trigger] is_row(r) && t(l[0].1, r) == ev(l[0].0, a))
{
    if l.len() == 1 {
        if found(l, a, t) { let r = choose|r: int| #[trigger] is_row(r) && forall|i: int| 0 <= i < l.len() ==> ev((#[trigger] l[i]).0, a) == t(l[i].1, r); assert(ev(l[0].0, a) == t(l[0].1, r)); }
    }
}
pub broadcast group lists { vanish_short, found_one }
pub proof fn sat_gate<F: Field>(m: &ConstraintSystem<F>, n: &ConstraintSystem<F>, g: Seq<Expression<F>>)
    requires n.gates@ == m.gates@ + g, n.lookups == m.lookups
    ensures forall|a: Around<F>, t: Tables<F>| #[trigger] n.sat(a, t) == (m.sat(a, t) && vanish(g, a))
{
    assert forall|a: Around<F>, t: Tables<F>| #[trigger] n.sat(a, t) == (m.sat(a, t) && vanish(g, a)) by {
        let k = m.gates@.len();
        assert forall|i: int| 0 <= i < k implies n.gates@[i] == #[trigger] m.gates@[i] by {}
        assert forall|i: int| 0 <= i < g.len() implies n.gates@[k + i] == #[trigger] g[i] by {}
        if n.sat(a, t) {
            assert forall|i: int| 0 <= i < k implies ev(#[trigger] m.gates@[i], a) == fzero::<F>() by { assert(ev(n.gates@[i], a) == fzero::<F>()); }
            assert forall|i: int| 0 <= i < g.len() implies ev(#[trigger] g[i], a) == fzero::<F>() by { assert(ev(n.gates@[k + i], a) == fzero::<F>()); }
        }
        if m.sat(a, t) && vanish(g, a) {
            assert forall|i: int| 0 <= i < n.gates@.len() implies ev(#[trigger] n.gates@[i], a) == fzero::<F>() by { if i < k { assert(n.gates@[i] == m.gates@[i]); } else { assert(n.gates@[i] == g[i - k]); } }
        }
    }
}
pub proof fn sat_lookup<F: Field>(m: &ConstraintSystem<F>, n: &ConstraintSystem<F>, l: Seq<(Expression<F>, TableColumn)>)
    requires n.lookups@ == m.lookups@.push(l), n.gates == m.gates
    ensures forall|a: Around<F>, t: Tables<F>| #[trigger] n.sat(a, t) == (m.sat(a, t) && found(l, a, t))
{
    assert forall|a: Around<F>, t: Tables<F>| #[trigger] n.sat(a, t) == (m.sat(a, t) && found(l, a, t)) by {
        let k = m.lookups@.len();
        assert(n.lookups@[k as int] == l);
        assert forall|i: int| 0 <= i < k implies n.lookups@[i] == #[trigger] m.lookups@[i] by {}
        if n.sat(a, t) { assert forall|i: int| 0 <= i < k implies found(#[trigger] m.lookups@[i], a, t) by { assert(found(n.lookups@[i], a, t)); } }
        if m.sat(a, t) && found(l, a, t) { assert forall|i: int| 0 <= i < n.lookups@.len() implies found(#[trigger] n.lookups@[i], a, t) by { if i < k { assert(n.lookups@[i] == m.lookups@[i]); } } }
    }
}
// ---------------------------------------------------------------- the field
pub trait Hashable: PrimeField {
    type SpecType;
    spec fn s_perm(x: Seq<Self>) -> Seq<Self>;
    fn hasher() -> Hasher<Self>;
}
//@@include region.vx
//@@include layouter.vx
