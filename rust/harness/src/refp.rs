//! The published instance, as reference functions over the (symbolic) field type.
use crate::spec;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, PrimeField};
use real::bn256::Fr as R;
use std::sync::OnceLock;

pub const RF: usize = 8;
pub const RP: usize = 57;

/// Parameters of Poseidon for BN254, t = 3, alpha = 5, R_F = 8, R_P = 57, generated from the
/// paper's Grain procedure by `spec` (real field arithmetic, no code of the repository).
pub fn ref_params() -> &'static (Vec<Vec<Fr>>, Vec<Vec<Fr>>) {
    static P: OnceLock<(Vec<Vec<Fr>>, Vec<Vec<Fr>>)> = OnceLock::new();
    P.get_or_init(|| {
        let (rc, m) = spec::params::<R>(3, RF, RP, 0).unwrap();
        let up = |v: Vec<Vec<R>>| {
            v.into_iter().map(|r| r.into_iter().map(Fr::concrete).collect()).collect::<Vec<Vec<Fr>>>()
        };
        (up(rc), up(m))
    })
}
pub fn pow5(x: Fr) -> Fr {
    x.pow_vartime([5])
}
/// the published permutation
pub fn perm_ref(s: &[Fr]) -> Vec<Fr> {
    let (rc, m) = ref_params();
    spec::permute(s, rc, m, RF, RP, pow5)
}
/// iden3: capacity in word 0, the two inputs in words 1 and 2, one permutation, output word 0
pub fn h2_ref(a: Fr, b: Fr, d: Fr) -> Fr {
    perm_ref(&[d, a, b])[0]
}
/// message hash: capacity in word 0, blocks of two in words 1, 2, zero padded
pub fn hmsg_ref(m: &[Fr], cap: Fr) -> Fr {
    spec::sponge(3, 2, 0, 1, Fr::ZERO, cap, &spec::pad(m, 2, Fr::ZERO), |s| perm_ref(s))
}
pub fn u128f(x: u128) -> Fr {
    Fr::from((x >> 64) as u64) * Fr::concrete(R::from_raw([0, 1, 0, 0])) + Fr::from(x as u64)
}
pub fn dec(s: &str) -> Fr {
    Fr::from_str_vartime(s).unwrap()
}
