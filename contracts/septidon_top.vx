//@@namespace pow_5 matmul select sbox
//@@include cprelude.vx
pub type Col = Cell;
pub broadcast proof fn ev_sub<F>(e: Expression<F>, a: Around<F>) ensures e is Difference ==> #[trigger] ev(e, a) == fsub(ev(*e->Difference_0, a), ev(*e->Difference_1, a)) {}
pub broadcast proof fn vanish_selected<F: Field>(q: Expression<F>, c: Seq<Expression<F>>, a: Around<F>)
    ensures #[trigger] vanish(selected(q, c), a) <==> ev(q, a) == fzero::<F>() || vanish(c, a)
{
    broadcast use f_mul_zero;
    let s = selected(q, c);
    if vanish(s, a) && ev(q, a) != fzero::<F>() {
        assert forall|i: int| 0 <= i < c.len() implies ev(#[trigger] c[i], a) == fzero::<F>() by { assert(ev(s[i], a) == fzero::<F>()); assert(ev(s[i], a) == fmul(ev(q, a), ev(c[i], a))); }
    }
    if ev(q, a) == fzero::<F>() || vanish(c, a) {
        assert forall|i: int| 0 <= i < s.len() implies ev(#[trigger] s[i], a) == fzero::<F>() by { assert(ev(s[i], a) == fmul(ev(q, a), ev(c[i], a))); let e = c[i]; }
    }
}
pub mod code { use super::*; use super::Col; use vstd::prelude::*; verus! {
broadcast use {super::ax, super::axp, super::tied_either_way};
//@@include septidon.vx
//@@include sepinstr.vx
//@@include sepsound.vx
//@@include sepcomplete.vx
//@@include sepbatch.vx
} }
} fn main(){}
