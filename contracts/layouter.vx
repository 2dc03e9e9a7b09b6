// ---------------------------------------------------------------- halo2: placing regions (shims with contracts)
/// what has been placed: the regions in order, the table cells, the copy constraints, the permutations asked of the permutation circuit
pub ghost struct Circuit<F> { pub regions: Seq<Cells<F>>, pub table: spec_fn(TableColumn, int) -> Option<F>, pub links: Seq<Set<At>>, pub perms: Seq<(Seq<At>, Seq<At>)> }
pub open spec fn blank<F>() -> Cells<F> { |c: Cell, o: int| None }
pub struct Table<F> { pub cells: Ghost<spec_fn(TableColumn, int) -> Option<F>> }
impl<F: Field> Table<F> {
    #[verifier::external_body]
    pub fn assign_cell(&mut self, c: TableColumn, offset: usize, to: Value<F>) -> (r: Result<(), Error>)
        requires to.v is Some
        ensures r is Ok ==> forall|x: TableColumn, y: int| #[trigger] final(self).cells@(x, y) == (if x == c && y == offset { Some(to.v->0) } else { old(self).cells@(x, y) }) { unimplemented!() }
}
pub trait Layouter<F: Field>: Sized {
    spec fn circ(&self) -> Circuit<F>;
    fn open(&mut self) -> (r: Region<'static, F>)
        ensures final(self).circ() == old(self).circ(), r.cells@ == blank::<F>(), r.tag@ == (old(self).circ().regions.len() as int, Seq::<Set<At>>::empty());
    fn close(&mut self, r: Region<'static, F>)
        requires r.tag@.0 == old(self).circ().regions.len()
        ensures final(self).circ() == (Circuit { regions: old(self).circ().regions.push(r.cells@), links: old(self).circ().links + r.tag@.1, ..old(self).circ() });
    /// a region of the first pass: only its shape counts
    fn shape(&mut self) -> (r: Region<'static, F>)
        ensures final(self).circ() == old(self).circ(), r.cells@ == blank::<F>();
    fn close_shape(&mut self, r: Region<'static, F>) ensures final(self).circ() == old(self).circ();
    fn open_table(&mut self) -> (r: Table<F>) ensures final(self).circ() == old(self).circ(), r.cells@ == old(self).circ().table;
    fn close_table(&mut self, r: Table<F>) ensures final(self).circ() == (Circuit { table: r.cells@, ..old(self).circ() });
}
#[verifier::external_body]
pub fn any_flag() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn thread_count() -> (r: usize) ensures r >= 1 { unimplemented!() }
#[verifier::external_body]
pub fn piece<X>(v: &Vec<X>, a: usize, e: usize) -> (r: &[X]) requires a <= e <= v@.len() ensures r@ == v@.subrange(a as int, e as int) { unimplemented!() }
pub fn extend_vec<X>(a: &mut Vec<X>, mut b: Vec<X>) ensures final(a)@ == old(a)@ + b@ { a.append(&mut b); }
impl<X> Yields<X> for Vec<X> {
    open spec fn items(&self) -> Seq<X> { self@ }
    fn n_items(&self) -> usize { self.len() }
    #[verifier::external_body]
    fn item(&self, i: usize) -> X { unimplemented!() }
}
/// the vectors of a vector, one after the other
pub open spec fn joined<X>(v: Seq<Vec<X>>) -> Seq<X> decreases v.len() { if v.len() == 0 { Seq::empty() } else { joined(v.drop_last()) + v.last()@ } }
#[verifier::external_body]
pub fn flattened<X>(v: Vec<Vec<X>>) -> (r: Vec<X>) ensures r@ == joined(v@) { unimplemented!() }
/// slice::chunks
pub struct Pieces<'a, X> { pub of: &'a [X], pub n: usize }
pub fn chunked<X>(v: &[X], n: usize) -> (r: Pieces<'_, X>) requires n > 0 ensures r.of == v, r.n == n { Pieces { of: v, n } }
pub open spec fn n_pieces(len: int, n: int) -> int { (len + n - 1) / n }
pub open spec fn piece_of<X>(s: Seq<X>, n: int, k: int) -> Seq<X> { s.subrange(k * n, if (k + 1) * n <= s.len() { (k + 1) * n } else { s.len() as int }) }
pub uninterp spec fn slice_of<'a, X>(s: &'a [X], n: int, k: int) -> &'a [X];
impl<'a, X> Yields<&'a [X]> for Pieces<'a, X> {
    open spec fn items(&self) -> Seq<&'a [X]> { Seq::new(n_pieces(self.of@.len() as int, self.n as int) as nat, |k: int| slice_of(self.of, self.n as int, k)) }
    #[verifier::external_body]
    fn n_items(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn item(&self, k: usize) -> &'a [X] { unimplemented!() }
}
pub broadcast axiom fn slice_is<X>(s: &[X], n: int, k: int) requires n > 0, 0 <= k < n_pieces(s@.len() as int, n) ensures (#[trigger] slice_of(s, n, k))@ == piece_of(s@, n, k);
// ---------------------------------------------------------------- the permutation circuit, as its user sees it
pub trait Chip<F>: Sized { type Config: Clone; }
/// where the words of a state are
pub open spec fn places<F, W>(s: Seq<W>) -> Seq<At> { Seq::new(s.len(), |i: int| word::<F, W>(s[i]).at@) }
/// d is c with more regions after it and these permutations constrained
pub open spec fn permuted_on<F>(c: Circuit<F>, d: Circuit<F>, p: Seq<(Seq<At>, Seq<At>)>) -> bool {
    d.regions.len() >= c.regions.len() && (forall|i: int| 0 <= i < c.regions.len() ==> #[trigger] d.regions[i] == c.regions[i]) && d.table == c.table && d.links == c.links && d.perms == c.perms + p
}
pub trait PoseidonInstructions<F: Field, S, const T: usize, const RATE: usize>: Chip<F> {
    type Word: Copy + From<AssignedCell<F, F>> + Into<AssignedCell<F, F>>;
    /// what C10 to C13 say: the words returned are constrained to be the permutation of those given
    fn permute<L: Layouter<F>>(&self, layouter: &mut L, init: &[Self::Word; T]) -> (r: Result<[Self::Word; T], Error>)
        ensures r is Ok ==> permuted_on(old(layouter).circ(), final(layouter).circ(), seq![(places::<F, _>(init@), places::<F, _>((r->Ok_0)@))]);
    fn permute_batch<L: Layouter<F>>(&self, layouter: &mut L, init: &Vec<[Self::Word; T]>) -> (r: Result<Vec<[Self::Word; T]>, Error>)
        ensures r is Ok ==> (r->Ok_0)@.len() == init@.len() && permuted_on(old(layouter).circ(), final(layouter).circ(), Seq::new(init@.len(), |i: int| (places::<F, _>(init@[i]@), places::<F, _>((r->Ok_0)@[i]@))));
}
pub trait PermuteChip<F: Field, S, const T: usize, const RATE: usize>: PoseidonInstructions<F, S, T, RATE> + Copy {
    /// the constraints this circuit adds
    spec fn s_sat(c: Self::Config, a: Around<F>, t: Tables<F>) -> bool;
    fn configure(meta: &mut ConstraintSystem<F>) -> (r: Self::Config)
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(meta).sat(a, t) == (old(meta).sat(a, t) && Self::s_sat(r, a, t)),
            final(meta).advices@ >= old(meta).advices@, final(meta).fixeds@ >= old(meta).fixeds@, final(meta).selectors@ >= old(meta).selectors@, final(meta).tables@ >= old(meta).tables@;
    fn construct(config: Self::Config) -> Self;
}
/// a word is the cell behind it
pub broadcast axiom fn word3<F: Field, S, PC: PermuteChip<F, S, T, RATE>, const T: usize, const RATE: usize>(w: PC::Word)
    ensures #[trigger] <PC::Word as IntoSpec<AssignedCell<F, F>>>::into_spec(w) == word::<F, PC::Word>(w);
pub broadcast axiom fn word4<F: Field, S, PC: PermuteChip<F, S, T, RATE>, const T: usize, const RATE: usize>()
    ensures #[trigger] <PC::Word as IntoSpec<AssignedCell<F, F>>>::obeys_into_spec();
/// words are copied by clone
pub broadcast axiom fn word5<F: Field, S, PC: PermuteChip<F, S, T, RATE>, const T: usize, const RATE: usize>(a: PC::Word, b: PC::Word)
    ensures #[trigger] call_ensures(<<PC as PoseidonInstructions<F, S, T, RATE>>::Word as Clone>::clone, (&a,), b) ==> a == b;
