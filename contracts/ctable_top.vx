//@@include cprelude.vx
pub mod code { use super::*; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::word1, super::word2, super::word3, super::word4, super::word5, super::tied_either_way};
//@@include ctable.vx
//@@include csound.vx
//@@include cfill.vx
//@@include cproof.vx
//@@include cload.vx
} }
} fn main(){}
