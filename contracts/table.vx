// ---- the table builder (poseidon-circuit/src/hash.rs): the table as a list of entries
//@@file poseidon-circuit/src/hash.rs
//@@struct PoseidonHashTable
//@@include entries.vx
/// a stream of n blocks fits: every block but the last leaves more than nothing
pub open spec fn covers(n: int, ctrl: int, step: int) -> bool { n == 1 || n > 1 && ctrl > (n - 1) * step }
pub open spec fn stream_entry<F>(src: Seq<[F; 2]>, check: Option<F>, ctrl: int, step: int, i: int) -> Entry<F> {
    Entry { words: src[i], control: (ctrl - i * step) as u64, domain: None, check: if i == src.len() - 1 { check } else { None } }
}
//@@impl PoseidonHashTable<F> as PoseidonHashTable
//@ method constant_inputs
//@ spec
        requires old(self).aligned()
        ensures final(self).aligned(), final(self).entries() == old(self).entries() + Seq::new(src@.len(), |i: int| Entry { words: src@[i], control: 0, domain: None, check: None })
//@ loop 0
            invariant n0__ == src@.len(), i0__ <= n0__, v0__@ == src@.take(i0__ as int)
            decreases n0__ - i0__
//@ at loop-end 0
            proof { assert(v0__@ =~= src@.take(i0__ as int)); }
//@ at tail
        proof {
            assert(self.inputs@ =~= old(self).inputs@ + src@);
            assert(self.entries() =~= old(self).entries() + Seq::new(src@.len(), |i: int| Entry { words: src@[i], control: 0u64, domain: None, check: None }));
        }
//@ method constant_inputs_with_check
//@ spec
        requires old(self).aligned()
        ensures final(self).aligned(), final(self).entries() == old(self).entries() + Seq::new(src@.len(), |i: int| Entry { words: [src@[i].0, src@[i].1], control: 0, domain: None, check: Some(src@[i].2) })
//@ loop 0
            invariant n0__ == src@.len(), i0__ <= n0__, self.aligned(), self.checks@.len() == self.inputs@.len(),
              self.entries() == old(self).entries() + Seq::new(i0__ as nat, |i: int| Entry { words: [src@[i].0, src@[i].1], control: 0u64, domain: None, check: Some(src@[i].2) })
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost e0 = self.entries();
//@ at loop-end 0
            proof {
                let e = Entry { words: [src@[j0__ as int].0, src@[j0__ as int].1], control: 0u64, domain: None, check: Some(src@[j0__ as int].2) };
                assert(self.entry(e0.len() as int).words =~= e.words);
                assert(self.entries() =~= e0.push(e));
                assert(self.entries() =~= old(self).entries() + Seq::new(i0__ as nat, |i: int| Entry { words: [src@[i].0, src@[i].1], control: 0u64, domain: None, check: Some(src@[i].2) }));
            }
//@ at before-loop 0
        proof { assert(self.entries() =~= old(self).entries()); }
//@ method fixed_inputs
//@ spec
        requires old(self).aligned()
        ensures final(self).aligned(), final(self).entries() == old(self).entries() + Seq::new(src@.len(), |i: int| Entry { words: src@[i].0, control: 0, domain: Some(src@[i].1), check: src@[i].2 })
//@ loop 0
            invariant n0__ == src@.len(), i0__ <= n0__, self.aligned(), self.checks@.len() == self.inputs@.len(), self.domain@.len() == self.inputs@.len(), self.controls@.len() == self.inputs@.len(),
              self.entries() == old(self).entries() + Seq::new(i0__ as nat, |i: int| Entry { words: src@[i].0, control: 0u64, domain: Some(src@[i].1), check: src@[i].2 })
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost e0 = self.entries();
//@ at loop-end 0
            proof {
                assert(self.entries() =~= e0.push(Entry { words: src@[j0__ as int].0, control: 0u64, domain: Some(src@[j0__ as int].1), check: src@[j0__ as int].2 }));
                assert(self.entries() =~= old(self).entries() + Seq::new(i0__ as nat, |i: int| Entry { words: src@[i].0, control: 0u64, domain: Some(src@[i].1), check: src@[i].2 }));
            }
//@ at before-loop 0
        proof { assert(self.entries() =~= old(self).entries()); }
//@ method stream_inputs
//@ spec
        requires old(self).aligned()
        ensures final(self).aligned(), covers(src@.len() as int, ctrl_start as int, step as int),
            final(self).entries() == old(self).entries() + Seq::new(src@.len(), |i: int| stream_entry(src@, None, ctrl_start as int, step as int, i))
//@ method stream_inputs_with_check
//@ opt refuses
//@ spec
        requires old(self).aligned()
        ensures final(self).aligned(), covers(src@.len() as int, ctrl_start as int, step as int),
            final(self).entries() == old(self).entries() + Seq::new(src@.len(), |i: int| stream_entry(src@, check, ctrl_start as int, step as int, i))
//@ loop 0
            invariant n0__ == src@.len(), i0__ <= n0__, v0__@ == src@.take(i0__ as int)
            decreases n0__ - i0__
//@ at loop-end 0
            proof { assert(v0__@ =~= src@.take(i0__ as int)); }
//@ at refuse 0
            assert(!covers(src@.len() as int, ctrl_start as int, step as int));
//@ loop 1
            invariant n1__ == src@.len(), i1__ <= n1__, i1__ == v1__@.len(),
              forall|k: int| 0 <= k < i1__ ==> #[trigger] v1__@[k] == ctrl_start - k * step,
              i1__ > 0 ==> ctrl_start - (i1__ - 1) * step >= 0,
              i1__ == 0 ==> s1__ == Some(ctrl_start),
              i1__ > 0 ==> (s1__ is Some <==> ctrl_start - (i1__ - 1) * step > step),
              s1__ is Some ==> s1__->0 == ctrl_start - i1__ * step && s1__->0 >= 0,
              i1__ > 1 ==> ctrl_start > (i1__ - 1) * step
            decreases n1__ - i1__
//@ at loop-begin 1
            proof {
                let (i, s) = (i1__ as int, step as int);
                assert((i - 1) * s + s == i * s) by (nonlinear_arith);
                assert((i - 2) * s + s == (i - 1) * s) by (nonlinear_arith);
            }
//@ at after-loop 1
        proof {
            let (i, n, s, c) = (i1__ as int, n1__ as int, step as int, ctrl_start as int);
            if i == n { }
            else {
                assert((i - 1) * s + s == i * s) by (nonlinear_arith);
                assert(i * s <= (n - 1) * s) by (nonlinear_arith) requires i <= n - 1, s >= 0;
                assert(!covers(n, c, s));
            }
        }
//@ at refuse 1
            assert(!covers(src@.len() as int, ctrl_start as int, step as int));
//@ at refuse 2
            assert(false);
//@ at tail
        proof {
            let new = Seq::new(src@.len(), |i: int| stream_entry(src@, check, ctrl_start as int, step as int, i));
            assert(self.inputs@ =~= old(self).inputs@ + src@);
            assert forall|i: int| 0 <= i < self.inputs@.len() implies #[trigger] self.entry(i) == (old(self).entries() + new)[i] by {
                let n0 = old(self).inputs@.len();
                if i < n0 { assert(old(self).entries()[i] == old(self).entry(i)); } else { assert(new[i - n0] == stream_entry(src@, check, ctrl_start as int, step as int, i - n0)); }
            }
            assert(self.entries() =~= old(self).entries() + new);
        }
//@ method table_size
//@ spec
        ensures r == self.entries().len()
//@@end
