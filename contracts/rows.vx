//@@file poseidon-circuit/src/hash.rs
pub open spec fn block_size<F: Hashable>() -> nat {
//@@if short
    1 + <F::SpecType as Spec<F, 3, 2>>::s_full_rounds()
//@@else
    1 + <F::SpecType as Spec<F, 3, 2>>::s_full_rounds() + (<F::SpecType as Spec<F, 3, 2>>::s_partial_rounds() + 1) / 2
//@@fi
}
//@@impl PoseidonHashTable<F> as PoseidonHashTable(rows)
//@ method minimum_row_require
//@ spec
        requires <F::SpecType as Spec<F, 3, 2>>::s_full_rounds() < 0x1_0000_0000, <F::SpecType as Spec<F, 3, 2>>::s_partial_rounds() < 0x1_0000_0000,
            self.inputs@.len() * block_size::<F>() <= usize::MAX,
        ensures r == self.entries().len() * block_size::<F>()
//@@end
