//! A recording stand-in for the `halo2_proofs` front end (scroll-tech fork, the API used by
//! poseidon-circuit).  Constraint systems and assignments are recorded, nothing is proved; the
//! two-pass region protocol, the single-chip floor plan and the forked sub-regions of
//! `assign_regions` follow the original.
pub mod circuit;
pub mod plonk;
pub mod poly;
pub use halo2curves;
