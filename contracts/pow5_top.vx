//@@include cprelude.vx
pub type Col = Cell;
pub trait FromUniformBytes<const N: usize>: PrimeField {}
pub broadcast proof fn ev_sub<F>(e: Expression<F>, a: Around<F>) ensures e is Difference ==> #[trigger] ev(e, a) == fsub(ev(*e->Difference_0, a), ev(*e->Difference_1, a)) {}
pub broadcast proof fn ev_mul<F>(e: Expression<F>, a: Around<F>) ensures e is Product ==> #[trigger] ev(e, a) == fmul(ev(*e->Product_0, a), ev(*e->Product_1, a)) {}
pub broadcast proof fn ev_sum<F>(e: Expression<F>, a: Around<F>) ensures e is Sum ==> #[trigger] ev(e, a) == fadd(ev(*e->Sum_0, a), ev(*e->Sum_1, a)) {}
pub broadcast group evs { ev_sub, ev_mul, ev_sum }
pub mod code { use super::*; use super::Col; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::axp, super::tied_either_way};
//@@include pow5.vx
//@@include pow5proof.vx
} }
} fn main(){}
