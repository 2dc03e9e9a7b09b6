#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces, private_bounds, unused_assignments)]
use core::marker::PhantomData;
use core::ops::*;
use vstd::prelude::*;
use vstd::std_specs::ops::*;
verus! {
global size_of usize == 8;


// ---------------------------------------------------------------- the field (assumed contracts)
pub trait Field: 'static + Sized + Copy + Clone + Add<Self, Output = Self> + AddAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> AddAssign<&'a Self> + for<'a> Mul<&'a Self, Output = Self>
{
    const ZERO: Self;
    const ONE: Self;
    fn square(&self) -> (r: Self) ensures r == fmul(*self, *self);
    fn double(&self) -> (r: Self) ensures r == fadd(*self, *self);
    // ff::Field::pow_vartime: exponent in little-endian 64-bit limbs (one limb is all the code uses)
    fn pow_vartime(&self, e: [u64; 1]) -> (r: Self) ensures r == fpow(*self, e@[0] as nat);
}
pub trait PrimeField: Field {
    fn from_u128(x: u128) -> (r: Self) ensures r == fnat::<Self>(x as nat);
}
pub trait FromUniformBytes<const N: usize>: PrimeField {}
pub uninterp spec fn fadd<F>(a: F, b: F) -> F;
pub open spec fn fpow<F>(a: F, n: nat) -> F decreases n { if n == 0 { fnat(1) } else { fmul(fpow(a, (n - 1) as nat), a) } }
pub uninterp spec fn fmul<F>(a: F, b: F) -> F;
pub uninterp spec fn fnat<F>(x: nat) -> F;
pub open spec fn fzero<F>() -> F { fnat::<F>(0) }
pub broadcast axiom fn ax_zero<F: Field>() ensures #[trigger] F::ZERO == fzero::<F>();
pub broadcast axiom fn ax_one<F: Field>() ensures #[trigger] F::ONE == fnat::<F>(1);
pub broadcast axiom fn ax_ma1<F: Field>(a: F, b: F) ensures #[trigger] <F as MulAssignSpec<F>>::mul_assign_req(&a, b);
pub broadcast axiom fn ax_ma2<F: Field>(a: F, b: F) ensures #[trigger] <F as MulAssignSpec<F>>::mul_assign_spec(&a, b) == fmul(a, b);
pub broadcast axiom fn ax_ma3<F: Field>() ensures #[trigger] <F as MulAssignSpec<F>>::obeys_mul_assign_spec();
pub broadcast axiom fn ax_aa1<F: Field>(a: F, b: F) ensures #[trigger] <F as AddAssignSpec<F>>::add_assign_req(&a, b);
pub broadcast axiom fn ax_aa2<F: Field>(a: F, b: F) ensures #[trigger] <F as AddAssignSpec<F>>::add_assign_spec(&a, b) == fadd(a, b);
pub broadcast axiom fn ax_aa3<F: Field>() ensures #[trigger] <F as AddAssignSpec<F>>::obeys_add_assign_spec();
pub broadcast axiom fn ax_a1<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_req(a, b);
pub broadcast axiom fn ax_a2<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_spec(a, b) == fadd(a, b);
pub broadcast axiom fn ax_a3<F: Field>() ensures #[trigger] <F as AddSpec<F>>::obeys_add_spec();
pub broadcast axiom fn ax_m1<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_req(a, b);
pub broadcast axiom fn ax_m2<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_spec(a, b) == fmul(a, b);
pub broadcast axiom fn ax_m3<F: Field>() ensures #[trigger] <F as MulSpec<F>>::obeys_mul_spec();
pub broadcast axiom fn ax_ar1<'a, F: Field>(a: F, b: &'a F) ensures #[trigger] <F as AddAssignSpec<&'a F>>::add_assign_req(&a, b);
pub broadcast axiom fn ax_ar2<'a, F: Field>(a: F, b: &'a F) ensures #[trigger] <F as AddAssignSpec<&'a F>>::add_assign_spec(&a, b) == fadd(a, *b);
pub broadcast axiom fn ax_ar3<'a, F: Field>() ensures #[trigger] <F as AddAssignSpec<&'a F>>::obeys_add_assign_spec();
pub broadcast group ax { ax_ar1, ax_ar2, ax_ar3, ax_zero, ax_one, ax_ma1, ax_ma2, ax_ma3, ax_aa1, ax_aa2, ax_aa3, ax_a1, ax_a2, ax_a3, ax_m1, ax_m2, ax_m3 }

/// an array expression [v; N] holds N copies of v
pub proof fn fill_is<U: Copy, const N: usize>(v: U)
    ensures forall|i: int| 0 <= i < N ==> #[trigger] vstd::array::spec_array_fill_for_copy_type::<U, N>(v)@[i] == v {}
pub open spec fn sub0_s(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub fn sub0(a: usize, b: usize) -> (r: usize) ensures r == sub0_s(a as int, b as int) { if a >= b { a - b } else { 0 } }

pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// core::iter::Repeat / Take of field elements: an infinite, then a finite constant sequence
pub mod iter {
    use vstd::prelude::*;
    verus!{
    pub struct Repeat<F> { pub v: F }
    pub struct Take<R> { pub r: R, pub n: usize }
    pub fn repeat<F>(v: F) -> (r: Repeat<F>) ensures r.v == v { Repeat { v } }
    impl<F> Repeat<F> {
        pub fn take(self, n: usize) -> (r: Take<Repeat<F>>) ensures r.r == self && r.n == n { Take { r: self, n } }
    }
    }
}
// what a value that is iterated over yields
pub trait Yields<F>: Sized {
    spec fn items(&self) -> Seq<F>;
    fn n_items(&self) -> (r: usize) ensures r == self.items().len();
    fn item(&self, i: usize) -> (r: F) requires i < self.items().len() ensures r == self.items()[i as int];
}
impl<F: Copy> Yields<F> for iter::Take<iter::Repeat<F>> {
    open spec fn items(&self) -> Seq<F> { Seq::new(self.n as nat, |i: int| self.r.v) }
    fn n_items(&self) -> usize { self.n }
    fn item(&self, i: usize) -> F { self.r.v }
}

pub type State<F, const T: usize> = [F; T];
pub type SpongeRate<F, const RATE: usize> = [Option<F>; RATE];
pub type Mds<F, const T: usize> = [[F; T]; T];

// ---------------------------------------------------------------- interfaces, with their contracts
pub trait Spec<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>: Sized {
    spec fn s_full_rounds() -> nat;
    spec fn s_partial_rounds() -> nat;
    spec fn s_sbox(v: F) -> F;
    /// the constants this specification generates: round constants and matrix
    spec fn s_constants() -> (Seq<Seq<F>>, Seq<Seq<F>>);
    spec fn s_constants_ok() -> bool;
    fn full_rounds() -> (r: usize) ensures r == Self::s_full_rounds();
    fn partial_rounds() -> (r: usize) ensures r == Self::s_partial_rounds();
    fn sbox(val: F) -> (r: F) ensures r == Self::s_sbox(val);
    fn constants() -> (r: (Vec<[F; T]>, Mds<F, T>, Mds<F, T>)) requires Self::s_constants_ok() ensures rows(r.0@) == Self::s_constants().0, rows(r.1@) == Self::s_constants().1;
}
pub trait P128Pow5T3Constants: FromUniformBytes<64> + Ord {
    spec fn s_rp() -> nat;
    spec fn s_prc() -> Seq<Seq<Self>>;
    spec fn s_pmds() -> Seq<Seq<Self>>;
    fn partial_rounds() -> (r: usize) ensures r == Self::s_rp();
    fn round_constants() -> (r: Vec<[Self; 3]>) ensures rows(r@) == Self::s_prc();
    fn mds() -> (r: Mds<Self, 3>) ensures rows(r@) == Self::s_pmds();
    fn mds_inv() -> (r: Mds<Self, 3>);
}
pub trait CachedSpec<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>: Spec<F, T, RATE> {
    spec fn s_rc() -> Seq<Seq<F>>;
    spec fn s_mds() -> Seq<Seq<F>>;
    fn cached_round_constants() -> (r: &'static [[F; T]]) ensures rows(r@) == Self::s_rc();
    fn cached_mds() -> (r: &'static Mds<F, T>) ensures rows(r@) == Self::s_mds();
}
pub open spec fn rows<F, const T: usize>(m: Seq<[F; T]>) -> Seq<Seq<F>> { Seq::new(m.len(), |i: int| m[i]@) }
pub trait Domain<F: FromUniformBytes<64> + Ord, const RATE: usize>: Sized {
    type Padding: Yields<F>;
    spec fn s_capacity() -> F;
    spec fn s_layout(width: int) -> int;
    spec fn s_pad_ok(n: int) -> bool;
    spec fn s_padding(n: int) -> Seq<F>;
    fn initial_capacity_element() -> (r: F) ensures r == Self::s_capacity();
    fn padding(input_len: usize) -> (r: Self::Padding) requires Self::s_pad_ok(input_len as int), RATE >= 1, ensures r.items() == Self::s_padding(input_len as int);
    fn layout(_width: usize) -> (r: usize) requires _width >= RATE, ensures r == Self::s_layout(_width as int);
}

//@@include digest.vx
// ---------------------------------------------------------------- the permutation, as a function
pub open spec fn dot<F>(a: Seq<F>, b: Seq<F>, n: nat) -> F decreases n {
    if n == 0 { fzero() } else { fadd(dot(a, b, (n - 1) as nat), fmul(a[n - 1], b[n - 1])) }
}
pub open spec fn mat_vec<F>(m: Seq<Seq<F>>, s: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| dot(m[i], s, s.len())) }
pub open spec fn add_rc<F>(s: Seq<F>, rc: Seq<F>) -> Seq<F> { Seq::new(s.len(), |i: int| fadd(s[i], rc[i])) }
pub open spec fn full_s<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> {
    mat_vec(m, add_rc(s, rc).map_values(|x: F| S::s_sbox(x)))
}
pub open spec fn part_s<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<F>) -> Seq<F> {
    mat_vec(m, add_rc(s, rc).update(0, S::s_sbox(add_rc(s, rc)[0])))
}
pub open spec fn is_full(i: int, h: int, p: int) -> bool { i < h || i >= h + p }
/// the state after the first n rounds: h full ones, p partial ones, then full ones
pub open spec fn rounds<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, n: nat) -> Seq<F> decreases n {
    if n == 0 { s } else {
        let t = rounds::<F, S, T, RATE>(s, m, rc, (n - 1) as nat);
        if is_full(n - 1, S::s_full_rounds() as int / 2, S::s_partial_rounds() as int) { full_s::<F, S, T, RATE>(t, m, rc[n - 1]) } else { part_s::<F, S, T, RATE>(t, m, rc[n - 1]) }
    }
}
pub open spec fn n_rounds<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>() -> nat {
    (S::s_full_rounds() / 2 + S::s_partial_rounds() + S::s_full_rounds() / 2) as nat
}
pub open spec fn perm<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>) -> Seq<F> {
    rounds::<F, S, T, RATE>(s, m, rc, if n_rounds::<F, S, T, RATE>() <= rc.len() { n_rounds::<F, S, T, RATE>() } else { rc.len() })
}
pub open spec fn cperm<F: FromUniformBytes<64> + Ord, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>) -> Seq<F> {
    perm::<F, S, T, RATE>(s, S::s_mds(), S::s_rc())
}
// Vec::try_into for arrays (assumed contract)
#[verifier::external_body]
pub fn vec_to_array<A, const N: usize>(v: Vec<A>) -> (r: [A; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
