//@@include prelude.vx
/// a failed run-time assertion: the call does not return
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
pub mod code { use super::*; use vstd::prelude::*; verus! {
//@@include table.vx
} }
} fn main(){}
