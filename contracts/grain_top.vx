//@@include gprelude.vx
//@@file poseidon-base/src/primitives.rs
//@@type Mds
pub mod grain { use super::*; use vstd::prelude::*; verus! {
broadcast use super::ax;
//@@include grain.vx
} }
pub mod mds { use super::*; use super::grain::*; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::vec_clone};
//@@include mds.vx
} }
pub mod gen { use super::*; use super::grain::*; use super::mds::*; use vstd::prelude::*; verus! {
broadcast use super::ax;
//@@include genspec.vx
} }
} fn main(){}
