//! Stand-in for `halo2curves`: everything is re-exported from the real crate except the scalar
//! field `bn256::Fr`, which is replaced by a wrapper that is EITHER a concrete element of the real
//! field (all arithmetic delegated to the real crate) OR a symbolic rational expression over it.
pub use real::{grumpkin, hash_to_curve, pairing, pasta, secp256k1, secp256r1, serde};
pub use real::{Coordinates, CurveAffine, CurveAffineExt, CurveExt};
pub use ff;
pub use group;

pub mod sym;
#[macro_use]
pub mod field;

pub mod bn256 {
    pub use real::bn256::{Fq, Fq12, Fq2, Fq6, G1, G1Affine, G2, G2Affine};
    pub use crate::field::Fr;
}
/// A second symbolic field (same concrete field) that the code under test knows nothing about.
pub use field::Gf;
