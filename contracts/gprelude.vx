#![allow(unused_imports, dead_code, unused_variables, non_snake_case, unused_parens, unused_mut, unused_braces, private_bounds, unused_assignments)]
use core::marker::PhantomData;
use core::ops::*;
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::arithmetic::power2::pow2;
verus! {
global size_of usize == 8;
/// a failed run-time assertion: the call does not return
#[verifier::external_body] pub fn refuse() ensures false { panic!() }
pub open spec fn sub0_s(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
pub fn sub0(a: usize, b: usize) -> (r: usize) ensures r == sub0_s(a as int, b as int) { if a >= b { a - b } else { 0 } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---------------------------------------------------------------- bytes and bits
/// little-endian value of bytes
pub open spec fn le(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { le(b.drop_last()) + b.last() as nat * pow2((8 * (b.len() - 1)) as nat) } }
pub proof fn le_zero(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0 ensures le(b) == 0 decreases b.len()
{
    if b.len() > 0 { assert forall|i: int| 0 <= i < b.len() - 1 implies #[trigger] b.drop_last()[i] == 0 by { assert(b[i] == 0); } le_zero(b.drop_last()); assert(b.last() == 0);
        assert(0 * pow2((8 * (b.len() - 1)) as nat) == 0); }
}
pub proof fn le_update(b: Seq<u8>, k: int, x: u8) requires 0 <= k < b.len(), x >= b[k]
    ensures le(b.update(k, x)) == le(b) + (x - b[k]) as nat * pow2((8 * k) as nat)
    decreases b.len()
{
    let c = b.update(k, x);
    if k == b.len() - 1 {
        assert(c.drop_last() =~= b.drop_last());
        assert(x as nat * pow2((8 * k) as nat) == b[k] as nat * pow2((8 * k) as nat) + (x - b[k]) as nat * pow2((8 * k) as nat)) by (nonlinear_arith) requires x >= b[k];
    } else {
        assert(c.drop_last() =~= b.drop_last().update(k, x));
        le_update(b.drop_last(), k, x);
        assert(c.last() == b.last());
    }
}
pub open spec fn bit_of(b: Seq<u8>, p: int) -> bool { (b[p / 8] >> ((p % 8) as usize)) & 1 != 0 }
/// setting the clear bit p of a byte string
pub proof fn set_bit(b: Seq<u8>, p: int, c: Seq<u8>)
    requires 0 <= p < 8 * b.len(), !bit_of(b, p), c == b.update(p / 8, b[p / 8] | (1u8 << ((p % 8) as usize)))
    ensures le(c) == le(b) + pow2(p as nat), forall|q: int| 0 <= q < 8 * b.len() && q != p ==> bit_of(c, q) == #[trigger] bit_of(b, q)
{
    let k = p / 8; let s = (p % 8) as usize; let x = b[k]; let y = x | (1u8 << s);
    assert(0 <= s < 8 && 0 <= k < b.len());
    assert(y == x + (1u8 << s) && y >= x) by (bit_vector) requires s < 8, (x >> s) & 1 == 0, y == x | (1u8 << s);
    assert((1u8 << s) == pow2(s as nat)) by {
        vstd::arithmetic::power2::lemma2_to64();
        assert(1u8 << 0usize == 1 && 1u8 << 1usize == 2 && 1u8 << 2usize == 4 && 1u8 << 3usize == 8 && 1u8 << 4usize == 16 && 1u8 << 5usize == 32 && 1u8 << 6usize == 64 && 1u8 << 7usize == 128) by (bit_vector);
    }
    le_update(b, k, y);
    vstd::arithmetic::power2::lemma_pow2_adds(s as nat, (8 * k) as nat);
    assert(8 * k + s == p);
    assert forall|q: int| 0 <= q < 8 * b.len() && q != p implies bit_of(c, q) == #[trigger] bit_of(b, q) by {
        let t = (q % 8) as usize;
        if q / 8 == k {
            assert(t != s && t < 8);
            assert((y >> t) & 1 == (x >> t) & 1) by (bit_vector) requires s < 8, t < 8, s != t, y == x | (1u8 << s);
        }
    }
}
pub proof fn clear_bits(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0 ensures forall|q: int| 0 <= q < 8 * b.len() ==> !#[trigger] bit_of(b, q)
{
    assert forall|q: int| 0 <= q < 8 * b.len() implies !#[trigger] bit_of(b, q) by { let t = (q % 8) as usize; assert(b[q / 8] == 0); assert((0u8 >> t) & 1 == 0) by (bit_vector); }
}
// ---------------------------------------------------------------- the field (assumed contracts)
pub trait ReprBytes: Sized {
    spec fn b(&self) -> Seq<u8>;
}
pub trait Repr: ReprBytes { spec fn s_len() -> nat; fn default() -> (r: Self) ensures r.b().len() == Self::s_len(), forall|i: int| 0 <= i < r.b().len() ==> #[trigger] r.b()[i] == 0; }
#[verifier::external_body]
pub fn std_as_mut<B: ReprBytes>(b: &mut B) -> (r: &mut [u8]) ensures r@ == old(b).b(), final(b).b() == final(r)@ { unimplemented!() }
impl ReprBytes for [u8; 64] { open spec fn b(&self) -> Seq<u8> { self@ } }
pub uninterp spec fn fnat<F>(x: nat) -> F;
pub uninterp spec fn modulus<F>() -> nat;
pub uninterp spec fn fadd<F>(a: F, b: F) -> F;
pub uninterp spec fn fmul<F>(a: F, b: F) -> F;
pub uninterp spec fn fneg<F>(a: F) -> F;
pub uninterp spec fn finv<F>(a: F) -> F;
pub open spec fn fsub<F>(a: F, b: F) -> F { fadd(a, fneg(b)) }
pub open spec fn fzero<F>() -> F { fnat::<F>(0) }
pub trait Field: 'static + Sized + Copy + Clone + PartialEq + Eq + PartialOrd + Ord + Add<Self, Output = Self> + Mul<Self, Output = Self> + Sub<Self, Output = Self> + Neg<Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
{
    const ZERO: Self;
    const ONE: Self;
    const NUM_BITS: u32;
    type Repr: Repr;
    fn is_zero_vartime(&self) -> (r: bool) ensures r == (*self == fzero::<Self>());
    fn invert(&self) -> (r: CtOption<Self>) ensures r.s() == (if *self == fzero::<Self>() { None } else { Some(finv(*self)) });
    fn from_repr_vartime(r: Self::Repr) -> (o: Option<Self>) ensures o == (if le(r.b()) < modulus::<Self>() { Some(fnat::<Self>(le(r.b()))) } else { None });
}
pub struct CtOption<F> { v: Option<F> }
impl<F> CtOption<F> {
    pub closed spec fn s(&self) -> Option<F> { self.v }
    pub fn unwrap(self) -> (r: F) requires self.s() is Some ensures Some(r) == self.s() { self.v.unwrap() }
}
pub trait FromUniformBytes<const N: usize>: Field {
    fn from_uniform_bytes(b: &[u8; N]) -> (r: Self) ensures r == fnat::<Self>(le(b@));
}
/// a representation has room for an element
pub axiom fn repr_room<F: Field>() ensures 8 * <F::Repr as Repr>::s_len() >= F::NUM_BITS;
pub broadcast axiom fn ax_zero<F: Field>() ensures #[trigger] F::ZERO == fzero::<F>();
pub broadcast axiom fn ax_one<F: Field>() ensures #[trigger] F::ONE == fnat::<F>(1);
pub broadcast axiom fn ax_a1<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_req(a, b);
pub broadcast axiom fn ax_a2<F: Field>(a: F, b: F) ensures #[trigger] <F as AddSpec<F>>::add_spec(a, b) == fadd(a, b);
pub broadcast axiom fn ax_a3<F: Field>() ensures #[trigger] <F as AddSpec<F>>::obeys_add_spec();
pub broadcast axiom fn ax_m1<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_req(a, b);
pub broadcast axiom fn ax_m2<F: Field>(a: F, b: F) ensures #[trigger] <F as MulSpec<F>>::mul_spec(a, b) == fmul(a, b);
pub broadcast axiom fn ax_m3<F: Field>() ensures #[trigger] <F as MulSpec<F>>::obeys_mul_spec();
pub broadcast axiom fn ax_s1<F: Field>(a: F, b: F) ensures #[trigger] <F as SubSpec<F>>::sub_req(a, b);
pub broadcast axiom fn ax_s2<F: Field>(a: F, b: F) ensures #[trigger] <F as SubSpec<F>>::sub_spec(a, b) == fsub(a, b);
pub broadcast axiom fn ax_s3<F: Field>() ensures #[trigger] <F as SubSpec<F>>::obeys_sub_spec();
pub broadcast axiom fn ax_t1<'a, F: Field>(a: F, b: &'a F) ensures #[trigger] <F as SubSpec<&'a F>>::sub_req(a, b);
pub broadcast axiom fn ax_t2<'a, F: Field>(a: F, b: &'a F) ensures #[trigger] <F as SubSpec<&'a F>>::sub_spec(a, b) == fsub(a, *b);
pub broadcast axiom fn ax_t3<'a, F: Field>() ensures #[trigger] <F as SubSpec<&'a F>>::obeys_sub_spec();
pub broadcast axiom fn ax_n1<F: Field>(a: F) ensures #[trigger] <F as NegSpec>::neg_req(a);
pub broadcast axiom fn ax_n2<F: Field>(a: F) ensures #[trigger] <F as NegSpec>::neg_spec(a) == fneg(a);
pub broadcast axiom fn ax_n3<F: Field>() ensures #[trigger] <F as NegSpec>::obeys_neg_spec();
pub broadcast group ax { ax_zero, ax_one, ax_a1, ax_a2, ax_a3, ax_m1, ax_m2, ax_m3, ax_s1, ax_s2, ax_s3, ax_t1, ax_t2, ax_t3, ax_n1, ax_n2, ax_n3 }
/// a difference is zero only between equal elements; negation is injective
pub axiom fn fsub_zero<F: Field>(a: F, b: F) requires fsub(a, b) == fzero::<F>() ensures a == b;
pub axiom fn fneg_inj<F: Field>(a: F, b: F) requires fneg(a) == fneg(b) ensures a == b;
pub axiom fn add_comm<F: Field>(a: F, b: F) ensures fadd(a, b) == fadd(b, a);
pub axiom fn mul_comm<F: Field>(a: F, b: F) ensures fmul(a, b) == fmul(b, a);
pub axiom fn mul_assoc<F: Field>(a: F, b: F, c: F) ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub axiom fn sub_neg<F: Field>(a: F, b: F) ensures fsub(a, fneg(b)) == fadd(a, b);
/// a product of three factors in any order
pub proof fn perm3<F: Field>(a: F, b: F, c: F)
    ensures ({ let p = fmul(fmul(a, b), c); &&& fmul(a, fmul(b, c)) == p &&& fmul(fmul(a, c), b) == p &&& fmul(a, fmul(c, b)) == p &&& fmul(fmul(b, a), c) == p &&& fmul(b, fmul(a, c)) == p
        &&& fmul(fmul(b, c), a) == p &&& fmul(b, fmul(c, a)) == p &&& fmul(fmul(c, a), b) == p &&& fmul(c, fmul(a, b)) == p &&& fmul(fmul(c, b), a) == p &&& fmul(c, fmul(b, a)) == p })
{
    mul_assoc(a, b, c); mul_assoc(a, c, b); mul_assoc(b, a, c); mul_assoc(b, c, a); mul_assoc(c, a, b); mul_assoc(c, b, a); mul_comm(a, b); mul_comm(a, c); mul_comm(b, c);
}
/// elements are copied by clone
pub broadcast axiom fn ax_clone<F: Field>(a: F, b: F) ensures #[trigger] vstd::pervasive::cloned(a, b) ==> a == b;
pub broadcast proof fn vec_clone<F: Field>(a: Vec<F>, b: Vec<F>) requires #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b), a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> vstd::pervasive::cloned(a@[i], b@[i]) ensures a@ == b@
{ broadcast use ax_clone; assert(a@ =~= b@); }
pub open spec fn rows<F, const T: usize>(m: Seq<[F; T]>) -> Seq<Seq<F>> { Seq::new(m.len(), |i: int| m[i]@) }
/// equal elements stand next to each other
pub open spec fn grouped<F>(s: Seq<F>) -> bool { forall|i: int, k: int, j: int| 0 <= i <= k <= j < s.len() && #[trigger] s[i] == #[trigger] s[j] ==> #[trigger] s[k] == s[i] }
/// sort_unstable (std): a permutation of the elements, in order
#[verifier::external_body]
pub fn sort_std<F: Field>(v: &mut Vec<F>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), grouped(final(v)@) { v.sort_unstable() }
/// dedup (std): removes every element equal to its predecessor
pub open spec fn dd<F>(s: Seq<F>) -> Seq<F> decreases s.len() { if s.len() == 0 { s } else if s.len() > 1 && s[s.len() - 1] == s[s.len() - 2] { dd(s.drop_last()) } else { dd(s.drop_last()).push(s.last()) } }
#[verifier::external_body]
pub fn dedup_std<F: Field>(v: &mut Vec<F>) ensures final(v)@ == dd(old(v)@) { v.dedup() }
pub fn std_sort_unstable<F: Field>(v: &mut Vec<F>) ensures final(v)@.len() == old(v)@.len(), grouped(final(v)@), final(v)@.no_duplicates() == old(v)@.no_duplicates()
{
    let ghost o = v@;
    sort_std(v);
    proof {
        let n = v@;
        vstd::seq_lib::to_multiset_len(o); vstd::seq_lib::to_multiset_len(n);
        if o.no_duplicates() { o.lemma_multiset_has_no_duplicates(); n.lemma_multiset_has_no_duplicates_conv(); }
        if n.no_duplicates() { n.lemma_multiset_has_no_duplicates(); o.lemma_multiset_has_no_duplicates_conv(); }
    }
}
pub proof fn dd_len<F>(s: Seq<F>) requires grouped(s) ensures dd(s).len() <= s.len(), (dd(s).len() == s.len()) == s.no_duplicates() decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let l = s.len() - 1;
        assert(grouped(t)) by { assert forall|i: int, k: int, j: int| 0 <= i <= k <= j < t.len() && #[trigger] t[i] == #[trigger] t[j] implies #[trigger] t[k] == t[i] by { assert(s[i] == s[j]); assert(s[k] == s[i]); } }
        dd_len(t);
        if s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); } }
        if s.len() > 1 && s[l] == s[l - 1] { assert(!s.no_duplicates()); }
        else if t.no_duplicates() {
            assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
                let (a, b) = if i < j { (i, j) } else { (j, i) };
                if b < l { assert(t[a] != t[b]); } else if s[a] == s[b] { assert(s[l - 1] == s[a]); }
            }
        } else if s.no_duplicates() { assert(false); }
    }
}
pub fn std_dedup<F: Field>(v: &mut Vec<F>) requires grouped(old(v)@) ensures (final(v)@.len() == old(v)@.len()) == old(v)@.no_duplicates()
{ proof { dd_len(v@); } dedup_std(v) }
/// rotation of an array (std)
#[verifier::external_body]
pub fn std_rotate_left<A, const N: usize>(a: &mut [A; N], k: usize) requires k <= N ensures forall|i: int| 0 <= i < N ==> #[trigger] final(a)@[i] == old(a)@[(i + k) % (N as int)] { unimplemented!() }
pub trait Iterator { type Item; spec fn wf(&self) -> bool; fn next(&mut self) -> (r: Option<Self::Item>) requires old(self).wf(); }
