//@@include prelude.vx
/// a failed run-time assertion: the call does not return
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
//@@include sponge.vx
pub mod code { use super::*; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::comm};
//@@include primitives.vx
} }
pub mod gadget { use super::*; use super::code::{Absorbing, Squeezing, ConstantLength, SpongeMode}; use vstd::std_specs::convert::*; use vstd::prelude::*; verus! {
//@@include gadget.vx
} }
} fn main(){}
