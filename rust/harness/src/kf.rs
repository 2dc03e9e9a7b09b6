//! `Kf`: a symbolic field owned by the harness, so that the repository's constant-providing trait
//! can be implemented for it with *symbolic* round constants.
use halo2curves::field::prelude::*;
use poseidon_base::primitives::{Mds, P128Pow5T3Constants};
use std::cell::{Cell, RefCell};

halo2curves::sym_field!(Kf, |b| Kf { c: R::from_uniform_bytes(b), n: 0 });

thread_local! {
    pub static PARTIAL: Cell<usize> = const { Cell::new(57) };
    pub static CONSTS: RefCell<(Vec<[Kf; 3]>, Mds<Kf, 3>, Mds<Kf, 3>)> =
        RefCell::new((vec![], [[Kf::ZERO; 3]; 3], [[Kf::ZERO; 3]; 3]));
}
impl P128Pow5T3Constants for Kf {
    fn partial_rounds() -> usize {
        PARTIAL.with(|p| p.get())
    }
    fn round_constants() -> Vec<[Self; 3]> {
        CONSTS.with(|c| c.borrow().0.clone())
    }
    fn mds() -> Mds<Self, 3> {
        CONSTS.with(|c| c.borrow().1)
    }
    fn mds_inv() -> Mds<Self, 3> {
        CONSTS.with(|c| c.borrow().2)
    }
}
