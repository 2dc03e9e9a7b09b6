// ---- poseidon-base/src/primitives.rs
//@@file poseidon-base/src/primitives.rs
//@@struct Absorbing
//@@struct Squeezing
pub trait SpongeMode: Sized {}
impl<F, const RATE: usize> SpongeMode for Absorbing<F, RATE> {}
impl<F, const RATE: usize> SpongeMode for Squeezing<F, RATE> {}
//@@struct Sponge

//@@fn permute
//@ spec
    requires T > 0, S::s_full_rounds() + S::s_partial_rounds() < 0x1_0000_0000,
    ensures final(state)@ == perm::<F, S, T, RATE>(old(state)@, rows(mds@), rows(round_constants@))
//@ loop 0
            invariant i0__ <= n0__, n0__ <= round_constants@.len(), r_f == S::s_full_rounds() / 2, r_p == S::s_partial_rounds(), T > 0,
              n0__ == (if r_f + r_p + r_f <= round_constants@.len() { r_f + r_p + r_f } else { round_constants@.len() as int }), r_f + r_p + r_f < 0x2_0000_0000,
              state@ == rounds::<F, S, T, RATE>(old(state)@, rows(mds@), rows(round_constants@), i0__ as nat),
            decreases n0__ - i0__
//@ closure apply_mds
    ensures final(state)@ == mat_vec(rows(mds@), old(state)@)
//@ loop 0
            invariant n0__ == T, i0__ <= n0__, *state == *old(state),
              forall|k: int| 0 <= k < i0__ ==> new_state@[k] == #[trigger] dot(mds@[k]@, state@, T as nat),
              forall|k: int| i0__ <= k < T ==> new_state@[k] == fzero::<F>(),
            decreases n0__ - i0__
//@ loop 1
                    invariant n0__ == T, n1__ == T, i1__ <= n1__, *state == *old(state), 0 <= i < T, i0__ == i + 1,
                      forall|k: int| 0 <= k < i ==> new_state@[k] == #[trigger] dot(mds@[k]@, state@, T as nat),
                      new_state@[i as int] == dot(mds@[i as int]@, state@, i1__ as nat),
                      forall|k: int| i < k < T ==> new_state@[k] == fzero::<F>(),
                    decreases n1__ - i1__
//@ at tail
    assert(state@ =~= mat_vec(rows(mds@), old(state)@));
//@ closure full_round
    ensures final(state)@ == full_s::<F, S, T, RATE>(old(state)@, rows(mds@), rcs@)
//@ loop 0
            invariant n0__ == T, i0__ <= n0__,
              forall|k: int| 0 <= k < i0__ ==> #[trigger] state@[k] == S::s_sbox(fadd(old(state)@[k], rcs@[k])),
              forall|k: int| i0__ <= k < T ==> #[trigger] state@[k] == old(state)@[k],
            decreases n0__ - i0__
//@ at after-loop 0
    assert(state@ =~= add_rc(old(state)@, rcs@).map_values(|x: F| S::s_sbox(x)));
//@ closure part_round
    requires T > 0
    ensures final(state)@ == part_s::<F, S, T, RATE>(old(state)@, rows(mds@), rcs@)
//@ loop 0
            invariant n0__ == T, i0__ <= n0__,
              forall|k: int| 0 <= k < i0__ ==> #[trigger] state@[k] == fadd(old(state)@[k], rcs@[k]),
              forall|k: int| i0__ <= k < T ==> #[trigger] state@[k] == old(state)@[k],
            decreases n0__ - i0__
//@ at after-loop 0
    assert(state@ =~= add_rc(old(state)@, rcs@));
    assert(state@.update(0, S::s_sbox(state@[0])) =~= add_rc(old(state)@, rcs@).update(0, S::s_sbox(add_rc(old(state)@, rcs@)[0])));
//@@end

//@@fn poseidon_sponge
//@ spec
    requires T > 0, RATE <= T, S::s_full_rounds() + S::s_partial_rounds() < 0x1_0000_0000,
        input is Some ==> all_some((input->0).0.0@) && (input->0).1 <= T - RATE,
    ensures
        final(state)@ == perm::<F, S, T, RATE>(if input is Some { add_at(old(state)@, vals((input->0).0.0@), (input->0).1 as int) } else { old(state)@ }, rows(mds_matrix@), rows(round_constants@)),
        r.0@ == somes(final(state)@, RATE as int),
//@ loop 0
                invariant n0__ == RATE, i0__ <= n0__, layout_offset + RATE <= T, all_some(input@), RATE <= T,
                  forall|k: int| layout_offset <= k < layout_offset + i0__ ==> #[trigger] state@[k] == fadd(old(state)@[k], input@[k - layout_offset]->0),
                  forall|k: int| 0 <= k < layout_offset || layout_offset + i0__ <= k < T ==> #[trigger] state@[k] == old(state)@[k],
                decreases n0__ - i0__
//@ at after-loop 0
        assert(state@ =~= add_at(old(state)@, vals(input@), layout_offset as int));
//@ loop 1
            invariant n1__ == RATE, RATE <= T, i1__ <= n1__,
                  forall|k: int| 0 <= k < i1__ ==> #[trigger] output@[k] == Some(state@[k]),
            decreases n1__ - i1__
//@ at tail
    assert(output@ =~= somes(state@, RATE as int));
//@@end

//@@impl Absorbing<F,RATE>
//@ method init_with
        requires RATE >= 1
        ensures r.0@ == somes(seq![val], RATE as int)
//@ at begin
        assert forall|x: [Option<F>; RATE]| x@.len() == RATE && (forall|k: int| 0 <= k < RATE ==> #[trigger] x@[k] == (if k == 0 { Some(val) } else { None })) implies #[trigger] x@ == somes(seq![val], RATE as int) by { assert(x@ =~= somes(seq![val], RATE as int)); }
//@ loop 0
                    invariant n0__ == RATE, i0__ <= n0__, v0__@.len() == i0__, RATE >= 1, c0__ == Some(val),
                      forall|k: int| 0 <= k < i0__ ==> #[trigger] v0__@[k] == (if k == 0 { Some(val) } else { None }),
                    decreases n0__ - i0__
//@@end

//@@impl Sponge<F,S,Absorbing<F,RATE>,T,RATE> as Sponge(absorbing)
    pub closed spec fn st(&self) -> Seq<F> { self.state@ }
    pub closed spec fn buf(&self) -> Seq<Option<F>> { self.mode.0@ }
    pub closed spec fn at(&self) -> int { self.layout as int }
    proof fn finish_lemma(&self)
        ensures forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && RATE > 0 && m.len() % RATE as nat == 0
           ==> all_some(self.buf()) && cperm::<F, S, T, RATE>(add_at(self.st(), vals(self.buf()), self.at())) == sponge(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()),
    {
        assert forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && RATE > 0 && m.len() % RATE as nat == 0
           implies all_some(self.buf()) && cperm::<F, S, T, RATE>(add_at(self.st(), vals(self.buf()), self.at())) == sponge(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()) by {
            after_full(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at());
            after_is_sponge(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at());
            assert(vals(self.buf()) =~= after(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()).1);
        }
    }
    /// the words m have been absorbed from state s on
    pub open spec fn absorbed(&self, s: Seq<F>, m: Seq<F>) -> bool {
        &&& self.st() == after(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()).0
        &&& holds(self.buf(), after(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()).1)
        &&& self.buf().len() == RATE
    }
//@ method new
        requires T > 0, RATE + layout <= usize::MAX,
        ensures r.st() == zeros::<F>(T as int).update((RATE + layout) % (T as int), initial_capacity_element), r.buf() == somes::<F>(seq![], RATE as int), r.at() == layout,
//@ at tail
        proof { fill_is::<Option<F>, RATE>(None); }
        assert(mode.0@ =~= somes::<F>(seq![], RATE as int));
        assert(state@ =~= zeros::<F>(T as int).update((RATE + layout) % (T as int), initial_capacity_element));
//@ method update_capacity
        requires T > 0, RATE + old(self).at() <= usize::MAX,
        ensures final(self).buf() == old(self).buf(), final(self).at() == old(self).at(),
          final(self).st() == old(self).st().update((RATE + old(self).at()) % (T as int), fadd(old(self).st()[(RATE + old(self).at()) % (T as int)], capacity_element)),
//@ method absorb
        requires ok_spec::<F, S, T, RATE>(), 0 <= old(self).at() <= T - RATE,
        ensures final(self).at() == old(self).at(),
            forall|b: Seq<F>| holds(old(self).buf(), b) && b.len() < RATE ==> holds(final(self).buf(), #[trigger] b.push(value)) && final(self).st() == old(self).st(),
            forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) ==> final(self).absorbed(s, m.push(value)),
            all_some(old(self).buf()) ==> holds(final(self).buf(), seq![value]) && final(self).st() == cperm::<F, S, T, RATE>(add_at(old(self).st(), vals(old(self).buf()), old(self).at())),
//@ loop 0
                invariant n0__ == RATE, i0__ <= n0__, *self == *old(self), RATE >= 1,
                   forall|k: int| 0 <= k < i0__ ==> #[trigger] self.mode.0@[k] is Some,
                decreases n0__ - i0__
//@ at before-return 0
                    assert forall|b: Seq<F>| holds(old(self).buf(), b) implies b.len() < RATE && holds(self.buf(), #[trigger] b.push(value)) by {
                        assert(old(self).mode.0@[j0__ as int] is None);
                        if j0__ < b.len() { assert(old(self).mode.0@[j0__ as int] == Some(b[j0__ as int])); }
                        if j0__ > b.len() { assert(old(self).mode.0@[b.len() as int] is Some); }
                        assert(self.mode.0@ =~= somes(b.push(value), RATE as int));
                    }
                    assert forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) implies self.absorbed(s, m.push(value)) by {
                        assert(m.push(value).drop_last() =~= m);
                        let b = after(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()).1;
                        assert(holds(self.buf(), b.push(value)));
                    }
//@ at tail
        assert forall|s: Seq<F>, m: Seq<F>| #[trigger] old(self).absorbed(s, m) implies self.absorbed(s, m.push(value)) by {
            assert(m.push(value).drop_last() =~= m);
            let b = after(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()).1;
            if b.len() < RATE { assert(old(self).mode.0@[b.len() as int] is Some); }
            assert(b =~= vals(old(self).mode.0@));
        }
        assert forall|b: Seq<F>| holds(old(self).buf(), b) implies !(b.len() < RATE) by {
            if b.len() < RATE { assert(old(self).mode.0@[b.len() as int] is Some); }
        }
//@ method finish_absorbing
        requires ok_spec::<F, S, T, RATE>(), 0 <= self.at() <= T - RATE, all_some(self.buf()),
        ensures forall|s: Seq<F>, m: Seq<F>| #[trigger] self.absorbed(s, m) && m.len() > 0 && m.len() % RATE as nat == 0 ==> r.st() == sponge(cp::<F, S, T, RATE>(), s, m, RATE as int, self.at()),
          r.st() == cperm::<F, S, T, RATE>(add_at(self.st(), vals(self.buf()), self.at())), r.buf() == somes(r.st(), RATE as int),
//@ at tail
        proof { Self::finish_lemma(&self); }
//@@end

//@@impl Sponge<F,S,Squeezing<F,RATE>,T,RATE> as Sponge(squeezing)
    pub closed spec fn st(&self) -> Seq<F> { self.state@ }
    pub closed spec fn buf(&self) -> Seq<Option<F>> { self.mode.0@ }
//@ method squeeze
        requires ok_spec::<F, S, T, RATE>(),
        ensures old(self).buf()[0] is Some ==> r == old(self).buf()[0]->0 && final(self).st() == old(self).st() && final(self).buf() == old(self).buf().update(0, None),
            all_none(old(self).buf()) ==> r == final(self).st()[0] && final(self).st() == cperm::<F, S, T, RATE>(old(self).st()),
//@ loop 0
            invariant ok_spec::<F, S, T, RATE>(),
               (self.st() == old(self).st() && self.buf() == old(self).buf()) || (all_none(old(self).mode.0@) && self.state@ == cperm::<F, S, T, RATE>(old(self).state@) && self.mode.0@ == somes(self.state@, RATE as int)),
            decreases (if self.mode.0@[0] is Some { 0int } else { 1 })
//@ at loop-begin 0
            let ghost g = *self;
//@ loop 1
                    invariant n1__ == RATE, i1__ <= n1__, self.st() == g.st(), self.buf() == g.buf(),
                     ok_spec::<F, S, T, RATE>(),
                     (self.st() == old(self).st() && self.buf() == old(self).buf()) || (all_none(old(self).mode.0@) && self.state@ == cperm::<F, S, T, RATE>(old(self).state@) && self.mode.0@ == somes(self.state@, RATE as int)),
                     forall|k: int| 0 <= k < i1__ ==> #[trigger] self.mode.0@[k] is None,
                    decreases n1__ - i1__
//@ at loop-begin 1
                    assert(j1__ > 0 ==> g.mode.0@[0] is None); assert(g.mode.0@[j1__ as int] == self.mode.0@[j1__ as int]);
                    assert(RATE as int > 0 && T as int > 0 && (g.mode.0@ == somes(g.state@, RATE as int) ==> g.mode.0@[0] == Some(g.state@[0])));
//@ at loop-end 1
                    assert(self.mode.0@ =~= g.mode.0@);
//@ at after-loop 1
            assert(all_none(self.mode.0@));
//@@end

//@@struct ConstantLength
//@@impl Domain<F,RATE>forConstantLength<L> as ConstantLength
    open spec fn s_capacity() -> F { fnat(L as nat * 0x1_0000_0000_0000_0000) }
    open spec fn s_layout(width: int) -> int { 0 }
    open spec fn s_pad_ok(n: int) -> bool { n == L && L < 0x1000_0000_0000_0000 && RATE < 0x1_0000 }
    open spec fn s_padding(n: int) -> Seq<F> { zeros(pad_len(n, RATE as int)) }
//@ method initial_capacity_element
//@ at begin
        assert(forall|l: u128| l < 0x1_0000_0000_0000_0000 ==> (l << 64) == l * 0x1_0000_0000_0000_0000) by(bit_vector);
//@ method padding
//@ at begin
        proof { pad_facts(input_len as int, RATE as int); }
        assert forall|x: Self::Padding| x.r.v == fzero::<F>() && x.n == pad_len(L as int, RATE as int) implies #[trigger] x.items() == zeros::<F>(pad_len(L as int, RATE as int)) by { assert(x.items() =~= zeros(pad_len(L as int, RATE as int))); }
//@ method layout
//@@end
//@@struct ConstantLengthIden3
//@@impl Domain<F,RATE>forConstantLengthIden3<L> as ConstantLengthIden3
    open spec fn s_capacity() -> F { fzero() }
    open spec fn s_layout(width: int) -> int { width - RATE }
    open spec fn s_pad_ok(n: int) -> bool { n == L && L < 0x1000_0000_0000_0000 && RATE < 0x1_0000 }
    open spec fn s_padding(n: int) -> Seq<F> { zeros(pad_len(n, RATE as int)) }
//@ method initial_capacity_element
//@ method padding
//@ method layout
//@@end
//@@struct VariableLengthIden3
//@@impl Domain<F,RATE>forVariableLengthIden3 as VariableLengthIden3
    open spec fn s_capacity() -> F { fzero() }
    open spec fn s_layout(width: int) -> int { width - RATE }
    open spec fn s_pad_ok(n: int) -> bool { true }
    open spec fn s_padding(n: int) -> Seq<F> { zeros(pad_len(n, RATE as int)) }
//@ method initial_capacity_element
//@ method padding
//@ at begin
        proof { pad_facts(input_len as int, RATE as int); }
        assert forall|x: Self::Padding| x.r.v == fzero::<F>() && x.n == pad_len(input_len as int, RATE as int) implies #[trigger] x.items() == zeros::<F>(pad_len(input_len as int, RATE as int)) by { assert(x.items() =~= zeros(pad_len(input_len as int, RATE as int))); }
//@ method layout
//@@end
//@@struct Hash
impl<F: FromUniformBytes<64> + Ord, S: CachedSpec<F, T, RATE>, D: Domain<F, RATE>, const T: usize, const RATE: usize> Clone for Hash<F, S, D, T, RATE> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@@impl Hash<F,S,D,T,RATE> as Hash
    pub closed spec fn sp(&self) -> Sponge<F, S, Absorbing<F, RATE>, T, RATE> { self.sponge }
    pub open spec fn fresh(&self) -> bool {
        &&& self.sp().at() == D::s_layout(T as int)
        &&& self.sp().st() == start(T as int, cap_at(RATE as int, D::s_layout(T as int), T as int), D::s_capacity())
        &&& self.sp().absorbed(self.sp().st(), seq![])
    }
//@ method init
        requires ok_spec::<F, S, T, RATE>(), 0 <= D::s_layout(T as int) <= T - RATE
        ensures r.fresh()
//@ method permute
        requires ok_spec::<F, S, T, RATE>(),
        ensures final(state)@ == cperm::<F, S, T, RATE>(old(state)@),
//@@end
//@@impl Hash<F,S,ConstantLength<L>,T,RATE> as Hash(ConstantLength)
//@ method hash
        requires ok_spec::<F, S, T, RATE>(), self.fresh(), 0 < L < 0x1000_0000_0000_0000,
        ensures r == digest(cp::<F, S, T, RATE>(), T as int, RATE as int, 0, fnat(L as nat * 0x1_0000_0000_0000_0000), message@)
//@ at begin
        let ghost s0 = self.sp().st();
        let ghost all = padded(message@, RATE as int);
//@ at before-loop 0
            assert(message@ + it0__.items() == all);
            assert(all.subrange(0, 0) =~= seq![]);
//@ loop 0
                invariant ok_spec::<F, S, T, RATE>(), n0__ == all.len(), L <= n0__, i0__ <= n0__, self__.sponge.at() == 0, all == message@ + it0__.items(), it0__.items().len() == n0__ - L,
                  self__.sponge.absorbed(s0, all.subrange(0, i0__ as int)),
                decreases n0__ - i0__
//@ at loop-end 0
                assert(all.subrange(0, i0__ as int) =~= all.subrange(0, j0__ as int).push(value));
//@ at tail
        proof { assert(all.subrange(0, all.len() as int) =~= all); pad_facts(L as int, RATE as int); self__.sponge.finish_lemma(); }
//@@end
//@@impl Hash<F,S,ConstantLengthIden3<L>,T,RATE> as Hash(ConstantLengthIden3)
//@ method hash
        requires ok_spec::<F, S, T, RATE>(), self.fresh(), 0 < L < 0x1000_0000_0000_0000,
        ensures r == digest(cp::<F, S, T, RATE>(), T as int, RATE as int, T - RATE, domain, message@)
//@ at begin
        let ghost s0 = start(T as int, cap_at(RATE as int, T - RATE, T as int), domain);
        let ghost all = padded(message@, RATE as int);
        broadcast use ring_add0;
//@ at before-loop 0
            assert(message@ + it0__.items() == all);
            assert(all.subrange(0, 0) =~= seq![]);
            proof { assert(0 <= (RATE + (T - RATE)) % (T as int) < T) by (nonlinear_arith) requires T > 0; }
            assert(self__.sponge.st() =~= s0);
            assert(self__.sponge.absorbed(s0, seq![]));
//@ loop 0
                invariant ok_spec::<F, S, T, RATE>(), n0__ == all.len(), L <= n0__, i0__ <= n0__, self__.sponge.at() == T - RATE, all == message@ + it0__.items(), it0__.items().len() == n0__ - L,
                  self__.sponge.absorbed(s0, all.subrange(0, i0__ as int)),
                decreases n0__ - i0__
//@ at loop-end 0
                assert(all.subrange(0, i0__ as int) =~= all.subrange(0, j0__ as int).push(value));
//@ at tail
        proof { assert(all.subrange(0, all.len() as int) =~= all); pad_facts(L as int, RATE as int); self__.sponge.finish_lemma(); }
//@@end
//@@impl Hash<F,S,VariableLengthIden3,T,RATE> as Hash(VariableLengthIden3)
//@ method hash_with_cap
        requires ok_spec::<F, S, T, RATE>(), self.fresh(), message@.len() > 0,
        ensures r == digest(cp::<F, S, T, RATE>(), T as int, RATE as int, T - RATE, fnat(cap as nat), message@)
//@ at begin
        let ghost s0 = start(T as int, cap_at(RATE as int, T - RATE, T as int), fnat::<F>(cap as nat));
        let ghost all = padded(message@, RATE as int);
        broadcast use ring_add0;
//@ at before-loop 0
            assert(message@.subrange(0, 0) =~= seq![]);
            proof { assert(0 <= (RATE + (T - RATE)) % (T as int) < T) by (nonlinear_arith) requires T > 0; }
            assert(self__.sponge.st() =~= s0);
            assert(self__.sponge.absorbed(s0, seq![]));
//@ loop 0
                invariant ok_spec::<F, S, T, RATE>(), n0__ == message@.len(), i0__ <= n0__, self__.sponge.at() == T - RATE,
                  self__.sponge.absorbed(s0, message@.subrange(0, i0__ as int)),
                decreases n0__ - i0__
//@ at loop-end 0
                assert(message@.subrange(0, i0__ as int) =~= message@.subrange(0, j0__ as int).push(*value));
//@ at before-loop 1
            assert(message@.subrange(0, message@.len() as int) =~= message@);
            assert(message@ + it1__.items() == all);
            assert(all.subrange(0, message@.len() as int) =~= message@);
//@ loop 1
                invariant ok_spec::<F, S, T, RATE>(), n1__ == it1__.items().len(), i1__ <= n1__, self__.sponge.at() == T - RATE, all == message@ + it1__.items(),
                  self__.sponge.absorbed(s0, all.subrange(0, message@.len() + i1__)),
                decreases n1__ - i1__
//@ at loop-end 1
                assert(all.subrange(0, message@.len() + i1__) =~= all.subrange(0, message@.len() + j1__).push(pad));
//@ at tail
        proof { assert(all.subrange(0, all.len() as int) =~= all); pad_facts(message@.len() as int, RATE as int); self__.sponge.finish_lemma(); }
//@@end
