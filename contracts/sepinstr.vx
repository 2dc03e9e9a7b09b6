// ---------------------------------------------------------------- permutations asked of the chip
//@@file poseidon-circuit/src/poseidon/pow5.rs
//@@struct StateWord public
//@@impl Var<F>forStateWord<F> as StateWord<F> inherent word_
//@ method word_value
        ensures r.v == Some(self.0.v@)
//@@end
impl<F: PrimeField> StateWord<F> {
    pub fn value(&self) -> (r: Value<F>) ensures r.v == Some(self.0.v@) { self.word_value() }
}
/// the values of three words
pub open spec fn wst<F: PrimeField>(s: Seq<StateWord<F>>) -> St<F> { St { a: s[0].0.v@, b: s[1].0.v@, c: s[2].0.v@ } }
/// three words tied to the first row of a block
pub open spec fn entered<F: PrimeField>(ch: SeptidonChip, g: int, b: int, s: Seq<StateWord<F>>) -> Seq<Set<At>> {
    let f = ch.full_round_chip.0.0@;
    seq![tied(s[0].0.at@, (g, f[0].input.column.c(), b)), tied(s[1].0.at@, (g, f[1].input.column.c(), b)), tied(s[2].0.at@, (g, f[2].input.column.c(), b))]
}
/// three words that are the final cells of a block
pub open spec fn left<F: CachedConstants>(ch: SeptidonChip, g: int, b: int, s: St<F>, r: Seq<StateWord<F>>) -> bool {
    let x = ch.transition_chip.column.c();
    r.len() == 3 && r[0].0.is(g, x, b + 5, perm3(s, 65).a) && r[1].0.is(g, x, b + 6, perm3(s, 65).b) && r[2].0.is(g, x, b + 7, perm3(s, 65).c)
}
/// what one permutation does: a region of its own
pub open spec fn permuted<F: CachedConstants>(ch: SeptidonChip, c: Circuit<F>, d: Circuit<F>, s: Seq<StateWord<F>>, r: Seq<StateWord<F>>) -> bool {
    &&& d.regions.len() == c.regions.len() + 1 && d.regions.drop_last() =~= c.regions && over(blank::<F>(), d.regions.last(), ch.wit(wst(s), 0))
    &&& d.links =~= c.links + entered(ch, c.regions.len() as int, 0, s) && d.table == c.table && d.perms == c.perms
    &&& left(ch, c.regions.len() as int, 0, wst(s), r)
}
pub type States<F> = Seq<[StateWord<F>; 3]>;
/// the cells of permutations one after the other, 8 rows each
pub open spec fn filled<F: CachedConstants>(ch: SeptidonChip, ss: States<F>, n: int) -> Contents<F> { |x: Col, y: int| if 0 <= y < 8 * n { ch.cell_of(wst(ss[y / 8]@), x, y % 8) } else { None } }
pub open spec fn chunk_links<F: PrimeField>(ch: SeptidonChip, g: int, ss: States<F>, n: int) -> Seq<Set<At>> decreases n {
    if n <= 0 { Seq::empty() } else { chunk_links(ch, g, ss, n - 1) + entered(ch, g, 8 * (n - 1), ss[n - 1]@) }
}
pub open spec fn chunk_out<F: CachedConstants>(ch: SeptidonChip, g: int, ss: States<F>, r: States<F>) -> bool { r.len() == ss.len() && forall|j: int| 0 <= j < ss.len() ==> left(ch, g, 8 * j, wst(ss[j]@), #[trigger] r[j]@) }
/// the copy constraints of the first k chunks of l states
pub open spec fn batch_links<F: PrimeField>(ch: SeptidonChip, g: int, ss: States<F>, l: int, k: int) -> Seq<Set<At>> decreases k {
    if k <= 0 { Seq::empty() } else { batch_links(ch, g, ss, l, k - 1) + chunk_links(ch, g + k - 1, piece_of(ss, l, k - 1), piece_of(ss, l, k - 1).len() as int) }
}
/// the first k chunks of l states are each in a region of their own
pub open spec fn batch<F: CachedConstants>(ch: SeptidonChip, c: Circuit<F>, d: Circuit<F>, ss: States<F>, r: Seq<States<F>>, l: int, k: int) -> bool {
    let g = c.regions.len() as int;
    &&& d.regions.len() == g + k && d.table == c.table && d.perms == c.perms && d.links == c.links + batch_links(ch, g, ss, l, k) && r.len() == k
    &&& forall|i: int| 0 <= i < g ==> #[trigger] d.regions[i] == c.regions[i]
    &&& forall|i: int| 0 <= i < k ==> chunk_out(ch, g + i, piece_of(ss, l, i), #[trigger] r[i]) && chunk_cells(ch, d.regions[g + i], piece_of(ss, l, i))
}
pub open spec fn chunk_cells<F: CachedConstants>(ch: SeptidonChip, m: Cells<F>, ss: States<F>) -> bool { forall|x: Col, y: int| #[trigger] m(x, y) == filled(ch, ss, ss.len() as int)(x, y) }
pub open spec fn cut<F>(v: Seq<Vec<F>>) -> Seq<Seq<F>> { Seq::new(v.len(), |i: int| v[i]@) }
/// what a batch does: some cut into chunks, the results in order
pub open spec fn batched<F: CachedConstants>(ch: SeptidonChip, c: Circuit<F>, d: Circuit<F>, ss: States<F>, r: States<F>) -> bool {
    exists|l: int, v: Seq<Vec<[StateWord<F>; 3]>>| l >= 1 && batch(ch, c, d, ss, cut(v), l, n_pieces(ss.len() as int, l)) && r == #[trigger] joined(v) && #[trigger] some_length(l)
}
pub open spec fn some_length(l: int) -> bool { true }
proof fn chunk_size<X>(ss: Seq<X>, l: int, k: int)
    requires l >= 1, 0 <= k < n_pieces(ss.len() as int, l)
    ensures k * l < ss.len(), 1 <= piece_of(ss, l, k).len() <= ss.len(), forall|j: int| 0 <= j < piece_of(ss, l, k).len() ==> #[trigger] piece_of(ss, l, k)[j] == ss[k * l + j]
{
    let n = ss.len() as int;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + l - 1, l);
    vstd::arithmetic::div_mod::lemma_mod_bound(n + l - 1, l);
    let q = (n + l - 1) / l;
    assert((k + 1) * l <= q * l) by (nonlinear_arith) requires k + 1 <= q, l >= 1;
    assert(k * l + l == (k + 1) * l) by (nonlinear_arith);
    assert(k * l >= 0) by (nonlinear_arith) requires k >= 0, l >= 1;
    assert(q * l == l * q) by (nonlinear_arith);
}
//@@file poseidon-base/src/primitives.rs
//@@type State
//@@file poseidon-circuit/src/poseidon/septidon/instruction.rs
//@@const WIDTH
//@@impl PermuteChip<F,S,WIDTH,RATE>forSeptidonChip as SeptidonChip inherent chip_
//@ method chip_configure
//@ opt array chip.initial_state_cells() 3
//@ opt array chip.final_state_cells() 3
//@ opt expand
        ensures forall|a: Around<F>, t: Tables<F>| #[trigger] final(meta).sat(a, t) == (old(meta).sat(a, t) && r.own(a)), r.wf(), grown(*old(meta), *final(meta))
//@ method chip_construct
        ensures r == config
//@@end
//@@impl PoseidonInstructions<F,S,WIDTH,RATE>forSeptidonChip as SeptidonChip inherent instr_
//@ method instr_permute
//@ opt layouter
//@ opt expand
//@ opt array initial_state 3
        requires self.wf()
        ensures r is Ok ==> permuted(*self, old(layouter).circ(), final(layouter).circ(), initial_state@, (r->Ok_0)@)
//@ method instr_permute_batch
//@ opt layouter
//@ opt expand
//@ opt array initial_state 3
        requires self.wf(), 8 * initial_states@.len() <= 0x3fff_0000
        ensures r is Ok ==> batched(*self, old(layouter).circ(), final(layouter).circ(), initial_states@, (r->Ok_0)@)
//@ at begin
        let ghost (c, ss) = (layouter.circ(), initial_states@);
        let ghost g0 = c.regions.len() as int;
        let ghost mut l = 0int;
//@ at before-loop 0
        proof { l = chunks_len as int; }
//@ loop 0
            invariant self.wf(), 8 * ss.len() <= 0x3fff_0000, it0__.of@ == ss, it0__.n == l, l >= 1, n0__ == n_pieces(ss.len() as int, l), i0__ <= n0__, batch(*self, c, layouter.circ(), ss, cut(placed__@), l, i0__ as int), g0 == c.regions.len()
            decreases n0__ - i0__
//@ at loop-begin 0
        let ghost (pl0, d0, k) = (placed__@, layouter.circ(), j0__ as int);
        proof { chunk_size(ss, l, k); slice_is(it0__.of, l, k); }
//@ loop 1
            invariant false
            decreases 0int
//@ loop 2
            invariant self.wf(), n2__ == initial_states@.len(), i2__ <= n2__, 8 * n2__ <= 0x3fff_0000, last_offset == 8 * i2__, region.tag@.0 == g0 + k, region.tag@.1 =~= chunk_links(*self, g0 + k, initial_states@, i2__ as int),
                final_states@.len() == i2__, forall|j: int| 0 <= j < i2__ ==> left(*self, g0 + k, 8 * j, wst(initial_states@[j]@), #[trigger] final_states@[j]@),
                forall|x: Col, y: int| #[trigger] region.cells@(x, y) == filled(*self, initial_states@, i2__ as int)(x, y)
            decreases n2__ - i2__
//@ at loop-end 0
        proof {
            let (d1, p, cs) = (layouter.circ(), placed__@, piece_of(ss, l, k));
            let g = c.regions.len() as int;
            assert(cut(p) =~= cut(pl0).push(p.last()@));
            assert(initial_states@ == cs);
            assert(d1.links =~= d0.links + chunk_links(*self, g + k, cs, cs.len() as int));
            assert(d1.links =~= c.links + batch_links(*self, g, ss, l, k + 1));
            assert(chunk_cells(*self, d1.regions[g + k], cs));
            assert(chunk_out(*self, g + k, cs, cut(p)[k]));
            assert forall|i: int| 0 <= i < g implies #[trigger] d1.regions[i] == c.regions[i] by { assert(d1.regions[i] == d0.regions[i]); }
            assert forall|i: int| 0 <= i < k + 1 implies chunk_out(*self, g + i, piece_of(ss, l, i), #[trigger] cut(p)[i]) && chunk_cells(*self, d1.regions[g + i], piece_of(ss, l, i)) by {
                if i < k { assert(cut(pl0)[i] == cut(p)[i]); assert(d1.regions[g + i] == d0.regions[g + i]); }
            }
        }
//@ at after-loop 0
        proof { assert(some_length(l)); assert(i0__ == n0__); }
//@@end
