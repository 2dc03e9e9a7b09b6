// ---- shims: what the gadget is handed (halo2 cells) and the chip interface with its contract
pub struct AssignedCell<V, F> { id: u64, p: PhantomData<(V, F)> }
impl<V, F> Copy for AssignedCell<V, F> {}
impl<V, F> Clone for AssignedCell<V, F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// the value of a cell in an assignment that satisfies the constraints
pub uninterp spec fn cval<F>(c: AssignedCell<F, F>) -> F;
pub struct Error {}
pub open spec fn pw<F: Field>(w: PaddedWord<F>) -> F { match w { PaddedWord::Message(c) => cval(c), PaddedWord::Padding(f) => f } }
pub open spec fn pbuf<F: Field>(b: Seq<Option<PaddedWord<F>>>) -> Seq<Option<F>> { Seq::new(b.len(), |i: int| match b[i] { Some(w) => Some(pw(w)), None => None }) }
/// the word of a state as a field value; halo2's cell behind a word has that value
pub uninterp spec fn wv<F, W>(w: W) -> F;
pub broadcast axiom fn into1<F: FromUniformBytes<64> + Ord, P: PoseidonInstructions<F, S, T, RATE>, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(w: P::Word)
    ensures cval::<F>(#[trigger] <P::Word as IntoSpec<AssignedCell<F, F>>>::into_spec(w)) == wv::<F, P::Word>(w);
pub broadcast axiom fn into2<F: FromUniformBytes<64> + Ord, P: PoseidonInstructions<F, S, T, RATE>, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>()
    ensures #[trigger] <P::Word as IntoSpec<AssignedCell<F, F>>>::obeys_into_spec();
pub open spec fn ws<F, W>(s: Seq<W>) -> Seq<F> { Seq::new(s.len(), |i: int| wv::<F, W>(s[i])) }
pub open spec fn wbuf<F, W>(b: Seq<Option<W>>) -> Seq<Option<F>> { Seq::new(b.len(), |i: int| match b[i] { Some(w) => Some(wv::<F, W>(w)), None => None }) }
pub trait PoseidonInstructions<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>: Sized {
    type Word: Copy + Into<AssignedCell<F, F>>;
    /// the permutation the chip constrains
    spec fn s_perm(x: Seq<F>) -> Seq<F>;
    fn permute(&self, initial_states: &State<Self::Word, T>) -> (r: Result<State<Self::Word, T>, Error>)
        ensures r is Ok ==> ws::<F, _>(r->Ok_0@) == Self::s_perm(ws::<F, Self::Word>(initial_states@));
}
pub trait PoseidonSpongeInstructions<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, D: Domain<F, RATE>, const T: usize, const RATE: usize>: PoseidonInstructions<F, S, T, RATE> {
    fn initial_state(&self) -> (r: Result<State<Self::Word, T>, Error>)
        ensures r is Ok ==> ws::<F, _>(r->Ok_0@) == start(T as int, RATE as int, D::s_capacity());
    fn add_input(&self, initial_state: &State<Self::Word, T>, input: &Absorbing<PaddedWord<F>, RATE>) -> (r: Result<State<Self::Word, T>, Error>)
        requires all_some(pbuf(input.0@))
        ensures r is Ok ==> ws::<F, _>(r->Ok_0@) == add_at(ws::<F, _>(initial_state@), vals(pbuf(input.0@)), 0);
    fn get_output(state: &State<Self::Word, T>) -> (r: Squeezing<Self::Word, RATE>)
        ensures wbuf::<F, Self::Word>(r.0@) == somes(ws::<F, _>(state@), RATE as int);
}
pub open spec fn chip_perm<F: FromUniformBytes<64> + Ord, P: PoseidonInstructions<F, S, T, RATE>, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>() -> spec_fn(Seq<F>) -> Seq<F> { |x: Seq<F>| P::s_perm(x) }
//@@file poseidon-circuit/src/poseidon.rs
//@@enum PaddedWord
impl<F: Field> Copy for PaddedWord<F> {}
impl<F: Field> Clone for PaddedWord<F> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@@fn poseidon_sponge as gadget poseidon_sponge
    requires T > RATE, RATE >= 1, input is Some ==> all_some(pbuf((input->0).0@))
    ensures r is Ok ==> ws::<F, _>(final(state)@) == PoseidonChip::s_perm(match input { Some(i) => add_at(ws::<F, _>(old(state)@), vals(pbuf(i.0@)), 0), None => ws::<F, _>(old(state)@) })
        && wbuf::<F, PoseidonChip::Word>((r->Ok_0).0@) == somes(ws::<F, _>(final(state)@), RATE as int)
//@@end
//@@struct Sponge
//@@impl Sponge<F,PoseidonChip,S,Absorbing<PaddedWord<F>,RATE>,D,T,RATE> as gadget Sponge(absorbing)
    pub closed spec fn st(&self) -> Seq<F> { ws::<F, _>(self.state@) }
    pub closed spec fn buf(&self) -> Seq<Option<F>> { pbuf(self.mode.0@) }
    /// the words m have been absorbed from state s on
    pub open spec fn absorbed(&self, s: Seq<F>, m: Seq<F>) -> bool {
        &&& self.st() == after(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0).0
        &&& holds(self.buf(), after(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0).1)
        &&& self.buf().len() == RATE
    }
    proof fn finish_lemma(&self)
        ensures forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && RATE > 0 && m.len() % RATE as nat == 0
           ==> all_some(self.buf()) && PoseidonChip::s_perm(add_at(self.st(), vals(self.buf()), 0)) == sponge(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0),
    {
        assert forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && RATE > 0 && m.len() % RATE as nat == 0
           implies all_some(self.buf()) && PoseidonChip::s_perm(add_at(self.st(), vals(self.buf()), 0)) == sponge(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0) by {
            after_full(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0);
            after_is_sponge(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0);
            assert(vals(self.buf()) =~= after(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0).1);
        }
    }
//@ method new
//@ opt map result
        ensures r is Ok ==> (r->Ok_0).st() == start(T as int, RATE as int, D::s_capacity()) && (r->Ok_0).buf() == somes::<F>(seq![], RATE as int)
//@ loop 0
                    invariant n0__ == RATE, i0__ <= n0__, v0__@.len() == i0__,
                      forall|k: int| 0 <= k < i0__ ==> #[trigger] v0__@[k] is None,
                    decreases n0__ - i0__
//@ at begin
        assert forall|x: [Option<PaddedWord<F>>; RATE]| x@.len() == RATE && (forall|k: int| 0 <= k < RATE ==> #[trigger] x@[k] is None) implies #[trigger] pbuf(x@) == somes::<F>(seq![], RATE as int) by { assert(pbuf(x@) =~= somes::<F>(seq![], RATE as int)); }
//@ method absorb
        requires T > RATE, RATE >= 1,
        ensures r is Ok ==> forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) ==> final(self).absorbed(s, m.push(pw(value))),
//@ loop 0
                invariant n0__ == RATE, i0__ <= n0__, *self == *old(self), RATE >= 1,
                   forall|k: int| 0 <= k < i0__ ==> #[trigger] self.mode.0@[k] is Some,
                decreases n0__ - i0__
//@ at before-return 0
                    assert forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) implies self.absorbed(s, m.push(pw(value))) by {
                        assert(m.push(pw(value)).drop_last() =~= m);
                        let b = after(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0).1;
                        let o = old(self).buf();
                        assert(o[j0__ as int] is None);
                        if j0__ < b.len() { assert(o[j0__ as int] == Some(b[j0__ as int])); }
                        if j0__ > b.len() { assert(o[b.len() as int] == None::<F>); assert(old(self).mode.0@[b.len() as int] is Some); }
                        assert(b.len() == j0__);
                        assert forall|k: int| 0 <= k < RATE implies #[trigger] self.buf()[k] == somes(b.push(pw(value)), RATE as int)[k] by { assert(o[k] == somes(b, RATE as int)[k]); }
                        assert(self.buf() =~= somes(b.push(pw(value)), RATE as int));
                    }
//@ at after-loop 0
        let ghost full = forall|k: int| 0 <= k < RATE ==> #[trigger] old(self).mode.0@[k] is Some;
        assert(all_some(pbuf(old(self).mode.0@)));
//@ at tail
        assert forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) implies self.absorbed(s, m.push(pw(value))) by {
            assert(m.push(pw(value)).drop_last() =~= m);
            let b = after(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0).1;
            let o = old(self).buf();
            assert(all_some(o));
            if b.len() < RATE { assert(o[b.len() as int] == None::<F>); }
            assert(b =~= vals(o));
            assert(self.buf() =~= somes(seq![pw(value)], RATE as int));
        }
//@ method finish_absorbing
        requires T > RATE, RATE >= 1, all_some(self.buf()),
        ensures r is Ok ==> (forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && m.len() % RATE as nat == 0 ==> (r->Ok_0).st() == sponge(chip_perm::<F, PoseidonChip, S, T, RATE>(), s, m, RATE as int, 0))
            && (r->Ok_0).buf() == somes((r->Ok_0).st(), RATE as int)
//@ at tail
        proof { Self::finish_lemma(&self); }
//@@end
//@@impl Sponge<F,PoseidonChip,S,Squeezing<PoseidonChip::Word,RATE>,D,T,RATE> as gadget Sponge(squeezing)
    pub closed spec fn st(&self) -> Seq<F> { ws::<F, _>(self.state@) }
    pub closed spec fn buf(&self) -> Seq<Option<F>> { wbuf::<F, PoseidonChip::Word>(self.mode.0@) }
//@ method squeeze
        requires T > RATE, RATE >= 1,
        ensures r is Ok && old(self).buf()[0] is Some ==> cval(r->Ok_0) == old(self).buf()[0]->0,
          r is Ok && all_none(old(self).buf()) ==> cval(r->Ok_0) == PoseidonChip::s_perm(old(self).st())[0],
//@ loop 0
            invariant T > RATE, RATE >= 1,
               (self.st() == old(self).st() && self.buf() == old(self).buf()) || (all_none(old(self).buf()) && self.st() == PoseidonChip::s_perm(old(self).st()) && self.buf() == somes(self.st(), RATE as int)),
            decreases (if self.mode.0@[0] is Some { 0int } else { 1 })
//@ at loop-begin 0
            broadcast use {into1, into2};
            let ghost g = *self;
//@ loop 1
                    invariant n1__ == RATE, i1__ <= n1__, self.st() == g.st(), self.buf() == g.buf(), T > RATE, RATE >= 1,
                     (self.st() == old(self).st() && self.buf() == old(self).buf()) || (all_none(old(self).buf()) && self.st() == PoseidonChip::s_perm(old(self).st()) && self.buf() == somes(self.st(), RATE as int)),
                     forall|k: int| 0 <= k < i1__ ==> #[trigger] self.mode.0@[k] is None,
                    decreases n1__ - i1__
//@ at loop-begin 1
                    broadcast use {into1, into2};
                    assert(j1__ > 0 ==> g.buf()[0] is None); assert(g.buf()[j1__ as int] == self.buf()[j1__ as int]);
                    assert(g.buf() == somes(g.st(), RATE as int) ==> g.buf()[0] == Some(g.st()[0]));
//@ at after-loop 1
            assert forall|k: int| 0 <= k < RATE implies #[trigger] self.buf()[k] is None by { assert(self.mode.0@[k] is None); }
            assert(all_none(self.buf()));
            assert(self.buf()[0] is None);
            assert(g.buf()[0] is None);
            assert(somes(g.st(), RATE as int)[0] is Some);
//@ at loop-end 0
            assert(self.st() == PoseidonChip::s_perm(g.st()));
            assert(self.buf() == somes(self.st(), RATE as int));
            assert(self.buf()[0] is Some);
//@@end
//@@struct Hash
//@@impl Hash<F,PoseidonChip,S,D,T,RATE> as gadget Hash
    pub closed spec fn sp(&self) -> Sponge<F, PoseidonChip, S, Absorbing<PaddedWord<F>, RATE>, D, T, RATE> { self.sponge }
    pub open spec fn fresh(&self) -> bool {
        &&& self.sp().st() == start(T as int, RATE as int, D::s_capacity())
        &&& self.sp().absorbed(self.sp().st(), seq![])
    }
//@ method init
//@ opt map result
        ensures r is Ok ==> (r->Ok_0).fresh()
//@@end
//@@impl Hash<F,PoseidonChip,S,ConstantLength<L>,T,RATE> as gadget Hash(ConstantLength)
//@ method hash
        requires T > RATE, RATE >= 1, RATE < 0x1_0000, T < 0x1_0000, self.fresh(), 0 < L < 0x1000_0000_0000_0000,
        ensures r is Ok ==> cval(r->Ok_0) == digest(chip_perm::<F, PoseidonChip, S, T, RATE>(), T as int, RATE as int, 0, fnat(L as nat * 0x1_0000_0000_0000_0000), Seq::new(L as nat, |i: int| cval(message@[i])))
//@ at begin
        assert(cap_at(RATE as int, 0, T as int) == RATE) by { vstd::arithmetic::div_mod::lemma_small_mod(RATE as nat, T as nat); }
        let ghost s0 = self.sp().st();
        let ghost msg = Seq::new(L as nat, |i: int| cval(message@[i]));
        let ghost all = padded(msg, RATE as int);
//@ at before-loop 0
            assert(msg + it0__.items() == all);
            assert(all.subrange(0, 0) =~= seq![]);
//@ loop 0
                invariant T > RATE, RATE >= 1, n0__ == all.len(), L <= n0__, i0__ <= n0__, all == msg + it0__.items(), it0__.items().len() == n0__ - L,
                  msg == Seq::new(L as nat, |i: int| cval(message@[i])),
                  self__.sponge.absorbed(s0, all.subrange(0, i0__ as int)),
                decreases n0__ - i0__
//@ at loop-end 0
                assert(all.subrange(0, i0__ as int) =~= all.subrange(0, j0__ as int).push(pw(value)));
//@ at tail
        proof { assert(all.subrange(0, all.len() as int) =~= all); pad_facts(L as int, RATE as int); self__.sponge.finish_lemma(); }
//@@end
