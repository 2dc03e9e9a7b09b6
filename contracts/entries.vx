// ---- the requests of a hash table
pub struct Entry<F> { pub words: [F; 2], pub control: u64, pub domain: Option<F>, pub check: Option<F> }
pub open spec fn at<X>(v: Seq<X>, i: int, d: X) -> X { if i < v.len() { v[i] } else { d } }
impl<F: PrimeField> PoseidonHashTable<F> {
    /// entry i: a missing control or domain means zero, a missing expected digest none
    pub open spec fn entry(&self, i: int) -> Entry<F> {
        Entry { words: self.inputs@[i], control: at(self.controls@, i, 0), domain: at(self.domain@, i, None), check: at(self.checks@, i, None) }
    }
    pub open spec fn entries(&self) -> Seq<Entry<F>> { Seq::new(self.inputs@.len(), |i: int| self.entry(i)) }
    /// no column is longer than the entries
    pub open spec fn aligned(&self) -> bool {
        self.controls@.len() <= self.inputs@.len() && self.domain@.len() <= self.inputs@.len() && self.checks@.len() <= self.inputs@.len()
    }
}
