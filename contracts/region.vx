// ---------------------------------------------------------------- halo2: assigning a region (shims with contracts)
pub struct Error {}
/// what a region holds at (column or selector, row of the region)
pub type Cells<F> = spec_fn(Cell, int) -> Option<F>;
/// n is m with one cell assigned
pub open spec fn put<F>(m: Cells<F>, n: Cells<F>, c: Cell, o: int, v: F) -> bool { forall|x: Cell, y: int| #[trigger] n(x, y) == (if x == c && y == o { Some(v) } else { m(x, y) }) }
pub struct Value<V> { pub v: Option<V> }
impl<V> Value<V> {
    pub fn known(v: V) -> (r: Value<V>) ensures r.v == Some(v) { Value { v: Some(v) } }
    pub fn unknown() -> (r: Value<V>) ensures r.v == None::<V> { Value { v: None } }
    pub fn zip<W>(self, o: Value<W>) -> (r: Value<(V, W)>) ensures r.v == (if self.v is Some && o.v is Some { Some((self.v->0, o.v->0)) } else { None }) { match (self.v, o.v) { (Some(a), Some(b)) => Value { v: Some((a, b)) }, _ => Value { v: None } } }
}
impl<V: Copy> Copy for Value<V> {}
impl<V: Copy> Clone for Value<V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// where a cell is: region, column or selector, row of the region
pub type At = (int, Cell, int);
/// a copy constraint: it has two sides and no direction
pub open spec fn tied(a: At, b: At) -> Set<At> { Set::empty().insert(a).insert(b) }
pub broadcast proof fn tied_either_way(a: At, b: At) ensures #[trigger] tied(a, b) == tied(b, a) { assert(tied(a, b) =~= tied(b, a)); }
/// the cell of the constants' column that holds a value
pub uninterp spec fn constant_at<F>(v: F) -> At;
/// a position handed to constrain_equal
pub struct Place { pub at: Ghost<At> }
pub struct AssignedCell<V, F> { pub at: Ghost<At>, pub v: Ghost<F>, pub p: PhantomData<V> }
impl<V, F> Copy for AssignedCell<V, F> {}
impl<V, F> Clone for AssignedCell<V, F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<V, F> AssignedCell<V, F> { pub open spec fn is(self, g: int, c: Cell, o: int, v: F) -> bool { self.at@ == (g, c, o) && self.v@ == v } }
impl<F: Field> AssignedCell<F, F> {
    #[verifier::external_body]
    pub fn copy_advice(&self, region: &mut Region<'_, F>, c: Column<Advice>, offset: usize) -> (r: Result<AssignedCell<F, F>, Error>)
        ensures r is Ok ==> put(old(region).cells@, final(region).cells@, c.c(), offset as int, self.v@) && (r->Ok_0).is(old(region).tag@.0, c.c(), offset as int, self.v@)
            && final(region).tag@ == (old(region).tag@.0, old(region).tag@.1.push(tied(self.at@, (old(region).tag@.0, c.c(), offset as int)))) { unimplemented!() }
}
impl<F> AssignedCell<F, F> { #[verifier::external_body] pub fn value(&self) -> (r: Value<&F>) ensures r.v is Some, *r.v->0 == self.v@ { unimplemented!() } }
impl<'a, F: Copy> Value<&'a F> { pub fn cloned(self) -> (r: Value<F>) ensures r.v == (match self.v { Some(x) => Some(*x), None => None }) { match self.v { Some(x) => Value { v: Some(*x) }, None => Value { v: None } } } }
impl<V, F> AssignedCell<V, F> { #[verifier::external_body] pub fn cell(&self) -> (r: Place) ensures r.at@ == self.at@ { unimplemented!() } }
/// tag: the number of the region and the copy constraints made in it
pub struct Region<'r, F> { pub cells: Ghost<Cells<F>>, pub tag: Ghost<(int, Seq<Set<At>>)>, pub p: PhantomData<&'r F> }
impl<'r, F: Field> Region<'r, F> {
    #[verifier::external_body]
    pub fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: Value<F>) -> (r: Result<AssignedCell<F, F>, Error>)
        requires to.v is Some
        ensures r is Ok ==> put(old(self).cells@, final(self).cells@, c.c(), offset as int, to.v->0) && (r->Ok_0).is(old(self).tag@.0, c.c(), offset as int, to.v->0) && final(self).tag@ == old(self).tag@ { unimplemented!() }
    #[verifier::external_body]
    pub fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: Value<F>) -> (r: Result<AssignedCell<F, F>, Error>)
        requires to.v is Some
        ensures r is Ok ==> put(old(self).cells@, final(self).cells@, c.c(), offset as int, to.v->0) && (r->Ok_0).is(old(self).tag@.0, c.c(), offset as int, to.v->0) && final(self).tag@ == old(self).tag@ { unimplemented!() }
    /// the cell is tied to a cell that holds the constant
    #[verifier::external_body]
    pub fn assign_advice_from_constant(&mut self, c: Column<Advice>, offset: usize, to: F) -> (r: Result<AssignedCell<F, F>, Error>)
        ensures r is Ok ==> put(old(self).cells@, final(self).cells@, c.c(), offset as int, to) && (r->Ok_0).is(old(self).tag@.0, c.c(), offset as int, to)
            && final(self).tag@ == (old(self).tag@.0, old(self).tag@.1.push(tied(constant_at(to), (old(self).tag@.0, c.c(), offset as int)))) { unimplemented!() }
    #[verifier::external_body]
    pub fn constrain_equal(&mut self, a: Place, b: Place) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).cells@ == old(self).cells@ && final(self).tag@ == (old(self).tag@.0, old(self).tag@.1.push(tied(a.at@, b.at@))) { unimplemented!() }
}
impl Selector {
    #[verifier::external_body]
    pub fn enable<F: Field>(&self, region: &mut Region<'_, F>, offset: usize) -> (r: Result<(), Error>)
        ensures r is Ok ==> put(old(region).cells@, final(region).cells@, self.c(), offset as int, fone::<F>()) && final(region).tag@ == old(region).tag@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_to_array<A, const N: usize>(v: Vec<A>) -> (r: [A; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
/// the cell behind a word of the permutation circuit
pub uninterp spec fn word<F, W>(w: W) -> AssignedCell<F, F>;
pub broadcast axiom fn word1<F: Field, S, PC: PermuteChip<F, S, T, RATE>, const T: usize, const RATE: usize>(c: AssignedCell<F, F>)
    ensures word::<F, PC::Word>(#[trigger] <PC::Word as FromSpec<AssignedCell<F, F>>>::from_spec(c)) == c;
pub broadcast axiom fn word2<F: Field, S, PC: PermuteChip<F, S, T, RATE>, const T: usize, const RATE: usize>()
    ensures #[trigger] <PC::Word as FromSpec<AssignedCell<F, F>>>::obeys_from_spec();
/// the hasher of a field: its permutation
pub struct Hasher<F> { pub p: PhantomData<F> }
impl<F: Hashable> Hasher<F> {
    #[verifier::external_body]
    pub fn permute(&self, state: &mut [F; 3]) ensures final(state)@ == F::s_perm(old(state)@) { unimplemented!() }
}
/// what a loop over a value runs through
pub trait Yields<X>: Sized {
    spec fn items(&self) -> Seq<X>;
    fn n_items(&self) -> (r: usize) ensures r == self.items().len();
    fn item(&self, i: usize) -> (r: X) requires i < self.items().len() ensures r == self.items()[i as int];
}
impl<'a, X> Yields<&'a X> for &'a [X] {
    open spec fn items(&self) -> Seq<&'a X> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn n_items(&self) -> usize { self.len() }
    fn item(&self, i: usize) -> &'a X { &self[i] }
}
impl<X: Copy, const N: usize> Yields<X> for [X; N] {
    open spec fn items(&self) -> Seq<X> { self@ }
    fn n_items(&self) -> usize { N }
    fn item(&self, i: usize) -> X { self[i] }
}
pub assume_specification<'a, X: Copy>[ Option::<&'a X>::copied ](o: Option<&'a X>) -> (r: Option<X>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
