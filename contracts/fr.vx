// ---- the concrete field: an opaque type (halo2curves::bn256::Fr), everything about it assumed
pub mod fr {
use super::*;
use vstd::prelude::*;
verus! {
#[verifier::external_body]
pub struct Fr { x: [u64; 4] }
impl Clone for Fr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Fr {}
impl PartialEq for Fr { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl Eq for Fr {}
impl PartialOrd for Fr { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl Ord for Fr { #[verifier::external_body] fn cmp(&self, o: &Self) -> core::cmp::Ordering { unimplemented!() } }
impl Add<Fr> for Fr { type Output = Fr; #[verifier::external_body] fn add(self, o: Fr) -> Fr { unimplemented!() } }
impl AddAssign<Fr> for Fr { #[verifier::external_body] fn add_assign(&mut self, o: Fr) { unimplemented!() } }
impl Mul<Fr> for Fr { type Output = Fr; #[verifier::external_body] fn mul(self, o: Fr) -> Fr { unimplemented!() } }
impl<'a> Add<&'a Fr> for Fr { type Output = Fr; #[verifier::external_body] fn add(self, o: &'a Fr) -> Fr { unimplemented!() } }
impl<'a> AddAssign<&'a Fr> for Fr { #[verifier::external_body] fn add_assign(&mut self, o: &'a Fr) { unimplemented!() } }
impl MulAssign<Fr> for Fr { #[verifier::external_body] fn mul_assign(&mut self, o: Fr) { unimplemented!() } }
impl<'a> Mul<&'a Fr> for Fr { type Output = Fr; #[verifier::external_body] fn mul(self, o: &'a Fr) -> Fr { unimplemented!() } }
impl Field for Fr {
    #[verifier::external_body] const ZERO: Self = Fr { x: [0; 4] };
    #[verifier::external_body] const ONE: Self = Fr { x: [0; 4] };
    #[verifier::external_body] fn square(&self) -> Self { unimplemented!() }
    #[verifier::external_body] fn double(&self) -> Self { unimplemented!() }
    #[verifier::external_body] fn pow_vartime(&self, e: [u64; 1]) -> Self { unimplemented!() }
}
impl PrimeField for Fr { #[verifier::external_body] fn from_u128(x: u128) -> Self { unimplemented!() } }
impl FromUniformBytes<64> for Fr {}
}
}
