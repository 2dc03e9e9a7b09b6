//@@include prelude.vx
/// a failed run-time assertion: the call does not return
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
//@@include sponge.vx
//@@include compact.vx
//@@include fr.vx
pub mod code { use super::*; use super::fr::*; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::comm};
//@@include primitives.vx
//@@include specs.vx
} }
pub mod hashing { use super::*; use super::fr::*; use super::code::*; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::comm};
//@@include hashfr.vx
} }
pub mod table { use super::*; use super::fr::*; use super::code::*; use super::hashing::*; use vstd::prelude::*; verus! {
//@@include table.vx
//@@include rows.vx
} }
} fn main(){}
