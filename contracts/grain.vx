// ---- the Grain generator: specification as functions of its remaining bit stream
pub type Bits = spec_fn(int) -> bool;
pub open spec fn dropn(s: Bits, n: int) -> Bits { |k: int| k >= 0 && s(k + n) }
/// bit k (from the least significant) of a 16-bit number
pub open spec fn bit16(v: u16, k: int) -> bool { (v >> (k as usize)) & 1 != 0 }
pub open spec fn ones() -> Seq<bool> { Seq::new(80, |i: int| true) }
/// w with the len bits of v, most significant first, from position off on
pub open spec fn put(w: Seq<bool>, off: int, len: int, v: u16) -> Seq<bool> { Seq::new(w.len(), |i: int| if off <= i < off + len { bit16(v, len - 1 - (i - off)) } else { w[i] }) }
/// the same while only the i lowest bits are written
pub open spec fn part(w: Seq<bool>, off: int, len: int, v: u16, i: int) -> Seq<bool> { Seq::new(w.len(), |p: int| if off + len - i <= p < off + len { bit16(v, off + len - 1 - p) } else { w[p] }) }
/// the 80-bit seed: field type, S-box type, field size, width, full rounds, partial rounds, then ones
pub open spec fn seed2(field: u16, sbox: u16) -> Seq<bool> { put(put(ones(), 0, 2, field), 2, 4, sbox) }
pub open spec fn seed4(field: u16, sbox: u16, n: u16, t: u16) -> Seq<bool> { put(put(seed2(field, sbox), 6, 12, n), 18, 12, t) }
pub open spec fn seed(field: u16, sbox: u16, n: u16, t: u16, rf: u16, rp: u16) -> Seq<bool> { put(put(seed4(field, sbox, n, t), 30, 10, rf), 40, 10, rp) }
/// the register's bit sequence from its seed on
pub open spec fn lfsr(w: Seq<bool>, k: int) -> bool decreases k {
    if k < 80 { w[k] } else { lfsr(w, k - 18) ^ lfsr(w, k - 29) ^ lfsr(w, k - 42) ^ lfsr(w, k - 57) ^ lfsr(w, k - 67) ^ lfsr(w, k - 80) }
}
pub open spec fn stream(w: Seq<bool>, n: int) -> Bits { |k: int| k >= 0 && lfsr(w, n + k) }
/// self-shrinking: the number of leading pairs whose first bit is 0
pub open spec fn is_first(s: Bits, q: int) -> bool { q >= 0 && s(2 * q) && forall|k: int| 0 <= k < q ==> !#[trigger] s(2 * k) }
pub open spec fn first(s: Bits) -> int { choose|q: int| is_first(s, q) }
pub open spec fn out(s: Bits) -> bool { s(2 * first(s) + 1) }
pub open spec fn rest(s: Bits) -> Bits { dropn(s, 2 * first(s) + 2) }
pub open spec fn rest_n(s: Bits, n: nat) -> Bits decreases n { if n == 0 { s } else { rest(rest_n(s, (n - 1) as nat)) } }
/// the number written by n output bits, most significant first
pub open spec fn number(s: Bits, n: nat) -> nat decreases n { if n == 0 { 0 } else { 2 * number(s, (n - 1) as nat) + if out(rest_n(s, (n - 1) as nat)) { 1nat } else { 0 } } }
/// without rejection: the number modulo p
pub open spec fn raw<F: FromUniformBytes<64>>(s: Bits) -> F { fnat::<F>(number(s, F::NUM_BITS as nat)) }
pub open spec fn raw_rest<F: FromUniformBytes<64>>(s: Bits, n: nat) -> Bits decreases n { if n == 0 { s } else { rest_n(raw_rest::<F>(s, (n - 1) as nat), F::NUM_BITS as nat) } }
/// with rejection: the first number below p
pub open spec fn is_acc<F: FromUniformBytes<64>>(s: Bits, q: int) -> bool {
    q >= 0 && number(raw_rest::<F>(s, q as nat), F::NUM_BITS as nat) < modulus::<F>() && forall|k: int| 0 <= k < q ==> number(#[trigger] raw_rest::<F>(s, k as nat), F::NUM_BITS as nat) >= modulus::<F>()
}
pub open spec fn acc<F: FromUniformBytes<64>>(s: Bits) -> nat { (choose|q: int| is_acc::<F>(s, q)) as nat }
pub open spec fn elem<F: FromUniformBytes<64>>(s: Bits) -> F { fnat::<F>(number(raw_rest::<F>(s, acc::<F>(s)), F::NUM_BITS as nat)) }
pub open spec fn elem_rest<F: FromUniformBytes<64>>(s: Bits, n: nat) -> Bits decreases n { if n == 0 { s } else { raw_rest::<F>(elem_rest::<F>(s, (n - 1) as nat), acc::<F>(elem_rest::<F>(s, (n - 1) as nat)) + 1) } }

pub proof fn first_is(s: Bits, q: int) requires is_first(s, q) ensures first(s) == q
{
    let p = first(s);
    assert(is_first(s, p));
    if p < q { assert(!s(2 * p)); } else if q < p { assert(!s(2 * q)); }
}
pub proof fn acc_is<F: FromUniformBytes<64>>(s: Bits, q: int) requires is_acc::<F>(s, q) ensures acc::<F>(s) == q
{
    let p = choose|q: int| is_acc::<F>(s, q);
    assert(is_acc::<F>(s, p));
    if p < q { assert(number(raw_rest::<F>(s, p as nat), F::NUM_BITS as nat) >= modulus::<F>()); } else if q < p { assert(number(raw_rest::<F>(s, q as nat), F::NUM_BITS as nat) >= modulus::<F>()); }
}
/// a window moved on by m positions generates the same sequence from there
pub proof fn lfsr_shift(w: Seq<bool>, v: Seq<bool>, m: int, k: int)
    requires m >= 0, forall|i: int| 0 <= i < 80 ==> #[trigger] v[i] == lfsr(w, i + m), k >= 0,
    ensures lfsr(v, k) == lfsr(w, k + m)
    decreases k
{
    if k >= 80 { lfsr_shift(w, v, m, k - 18); lfsr_shift(w, v, m, k - 29); lfsr_shift(w, v, m, k - 42); lfsr_shift(w, v, m, k - 57); lfsr_shift(w, v, m, k - 67); lfsr_shift(w, v, m, k - 80); }
}
pub open spec fn bit8(v: u8, k: int) -> bool { (v >> (k as usize)) & 1 != 0 }
pub(crate) open spec fn sbox_s(s: SboxType) -> u16 { match s { SboxType::Pow => 0, SboxType::Inv => 1 } }
/// one more output bit, at the next lower position
pub proof fn put_bit(v: Seq<u8>, w: Seq<u8>, s: Bits, j: nat, n: nat, bit: bool)
    requires j < n, n <= 8 * v.len(), le(v) == number(s, j) * pow2((n - j) as nat), forall|p: int| 0 <= p < n - j ==> !#[trigger] bit_of(v, p), bit == out(rest_n(s, j)),
        bit ==> w == v.update((n - 1 - j) / 8, v[(n - 1 - j) / 8] | (1u8 << (((n - 1 - j) % 8) as usize))),
        !bit ==> w == v || w == v.update((n - 1 - j) / 8, v[(n - 1 - j) / 8] | 0u8) || w == v.update((n - 1 - j) / 8, v[(n - 1 - j) / 8] | (0u8 << (((n - 1 - j) % 8) as usize)))
    ensures le(w) == number(s, j + 1) * pow2((n - (j + 1)) as nat), forall|p: int| 0 <= p < n - (j + 1) ==> !#[trigger] bit_of(w, p)
{
    let p = n - 1 - j;
    vstd::arithmetic::power2::lemma_pow2_unfold((n - j) as nat);
    let (a, e) = (number(s, j), pow2(p as nat));
    assert(a * (2 * e) == (2 * a) * e) by (nonlinear_arith);
    assert(!bit_of(v, p));
    if bit { set_bit(v, p, w); assert((2 * a + 1) * e == (2 * a) * e + e) by (nonlinear_arith);
        assert forall|q: int| 0 <= q < n - (j + 1) implies !#[trigger] bit_of(w, q) by { assert(!bit_of(v, q)); } }
    else { let x = v[p / 8]; assert(x | 0 == x) by (bit_vector); let t = (p % 8) as usize; assert(x | (0u8 << t) == x) by (bit_vector) requires t < 8; assert(w =~= v); }
}

//@@file poseidon-base/src/primitives/grain.rs
//@@const STATE
//@@enum FieldType
//@@enum SboxType
//@@impl FieldType
//@ method tag
        ensures r == (match *self { FieldType::Binary => 0u8, FieldType::PrimeOrder => 1u8 })
//@@end
//@@impl SboxType
//@ method tag
        ensures r == (match *self { SboxType::Pow => 0u8, SboxType::Inv => 1u8 })
//@@end
//@@struct Grain
//@@impl Grain<F>
    pub closed spec fn bits(&self) -> Bits { stream(self.state@, self.next_bit as int) }
    pub closed spec fn ok(&self) -> bool { 72 <= self.next_bit <= 80 }
//@ method new
//@ opt inline set_bits
//@ spec
        ensures r.ok(), r.bits() == stream(seed(1, sbox_s(sbox), F::NUM_BITS as u16, t, r_f, r_p), 240)
//@ at before-loop 0
            assert(state@ =~= part(ones(), 0, 2, 1u16, 0));
//@ loop 0
            invariant offset == 0, len == 2, value == 1u16, n0__ == 2, i0__ <= n0__, state@ == part(ones(), 0, 2, 1u16, i0__ as int)
            decreases n0__ - i0__
//@ at loop-end 0
            assert(state@ =~= part(ones(), 0, 2, 1u16, i0__ as int));
//@ at after-loop 0
            assert(state@ =~= put(ones(), 0, 2, 1));
//@ at before-loop 1
            assert(state@ =~= part(put(ones(), 0, 2, 1), 2, 4, sbox_s(sbox), 0));
//@ loop 1
            invariant offset == 2, len == 4, value == sbox_s(sbox), n1__ == 4, i1__ <= n1__, state@ == part(put(ones(), 0, 2, 1), 2, 4, sbox_s(sbox), i1__ as int)
            decreases n1__ - i1__
//@ at loop-end 1
            assert(state@ =~= part(put(ones(), 0, 2, 1), 2, 4, sbox_s(sbox), i1__ as int));
//@ at after-loop 1
            assert(state@ =~= seed2(1, sbox_s(sbox)));
//@ at before-loop 2
            assert(state@ =~= part(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16, 0));
//@ loop 2
            invariant offset == 6, len == 12, value == F::NUM_BITS as u16, n2__ == 12, i2__ <= n2__, state@ == part(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16, i2__ as int)
            decreases n2__ - i2__
//@ at loop-end 2
            assert(state@ =~= part(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16, i2__ as int));
//@ at after-loop 2
            assert(state@ =~= put(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16));
//@ at before-loop 3
            assert(state@ =~= part(put(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16), 18, 12, t, 0));
//@ loop 3
            invariant offset == 18, len == 12, value == t, n3__ == 12, i3__ <= n3__, state@ == part(put(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16), 18, 12, t, i3__ as int)
            decreases n3__ - i3__
//@ at loop-end 3
            assert(state@ =~= part(put(seed2(1, sbox_s(sbox)), 6, 12, F::NUM_BITS as u16), 18, 12, t, i3__ as int));
//@ at after-loop 3
            assert(state@ =~= seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t));
//@ at before-loop 4
            assert(state@ =~= part(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f, 0));
//@ loop 4
            invariant offset == 30, len == 10, value == r_f, n4__ == 10, i4__ <= n4__, state@ == part(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f, i4__ as int)
            decreases n4__ - i4__
//@ at loop-end 4
            assert(state@ =~= part(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f, i4__ as int));
//@ at after-loop 4
            assert(state@ =~= put(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f));
//@ at before-loop 5
            assert(state@ =~= part(put(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f), 40, 10, r_p, 0));
//@ loop 5
            invariant offset == 40, len == 10, value == r_p, n5__ == 10, i5__ <= n5__, state@ == part(put(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f), 40, 10, r_p, i5__ as int)
            decreases n5__ - i5__
//@ at loop-end 5
            assert(state@ =~= part(put(seed4(1, sbox_s(sbox), F::NUM_BITS as u16, t), 30, 10, r_f), 40, 10, r_p, i5__ as int));
//@ at after-loop 5
            assert(state@ =~= seed(1, sbox_s(sbox), F::NUM_BITS as u16, t, r_f, r_p));
//@ loop 6
            invariant n6__ == 20, i6__ <= n6__, grain.next_bit == 80,
                forall|p: int| 0 <= p < 80 ==> #[trigger] grain.state@[p] == lfsr(seed(1, sbox_s(sbox), F::NUM_BITS as u16, t, r_f, r_p), p + 8 * i6__)
            decreases n6__ - i6__
//@ at loop-begin 6
            let ghost w = seed(1, sbox_s(sbox), F::NUM_BITS as u16, t, r_f, r_p);
            let ghost v = grain.state@;
//@ at loop-end 6
            proof {
                assert forall|p: int| 0 <= p < 80 implies #[trigger] grain.state@[p] == lfsr(w, p + 8 * i6__) by { lfsr_shift(w, v, 8 * j6__ as int, p + 8); }
            }
//@ at tail
        proof {
            let w = seed(1, sbox_s(sbox), F::NUM_BITS as u16, t, r_f, r_p);
            assert forall|k: int| k >= 0 implies #[trigger] lfsr(grain.state@, 80 + k) == lfsr(w, 240 + k) by { lfsr_shift(w, grain.state@, 160, 80 + k); }
            assert(grain.bits() =~= stream(w, 240));
        }
//@@end
//@@impl Grain<F>
//@ method load_next_8_bits
//@ spec
        requires old(self).next_bit == 80
        ensures final(self).next_bit == 72, forall|i: int| 0 <= i < 80 ==> #[trigger] final(self).state@[i] == lfsr(old(self).state@, i + 8)
//@ at before-loop 0
            assert forall|q: usize| q < 8 implies #[trigger] (new_bits >> q) & 1 == 0 by { assert((0u8 >> q) & 1 == 0) by (bit_vector); }
//@ loop 0
            invariant n0__ == 8, i0__ <= n0__, self.next_bit == 80, self.state == old(self).state,
                forall|q: usize| i0__ <= q < 8 ==> #[trigger] (new_bits >> q) & 1 == 0,
                forall|q: usize| q < i0__ ==> (#[trigger] (new_bits >> q) & 1 != 0) == lfsr(old(self).state@, 80 + q)
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost nb = new_bits;
//@ at loop-end 0
            proof {
                let w = old(self).state@; let k = j0__ as int;
                let v = lfsr(w, 80 + k);
                reveal_with_fuel(lfsr, 2);
                assert(v == (w[k + 62] ^ w[k + 51] ^ w[k + 38] ^ w[k + 23] ^ w[k + 13] ^ w[k]));
                let c: u8 = if v { 1 } else { 0 };
                assert(new_bits == nb | (c << (j0__ as u8)));
                assert forall|q: usize| q < 8 implies #[trigger] (new_bits >> q) & 1 == (if q == j0__ { c } else { (nb >> q) & 1 }) by {
                    let j = j0__;
                    assert((new_bits >> q) & 1 == (if q == j { c } else { (nb >> q) & 1 })) by (bit_vector) requires q < 8, j < 8, c <= 1, (nb >> j) & 1 == 0, new_bits == nb | (c << (j as u8));
                }
            }
//@ loop 1
            invariant n1__ == 8, i1__ <= n1__, self.next_bit == 72,
                forall|p: int| 0 <= p < 72 ==> #[trigger] self.state@[p] == old(self).state@[p + 8],
                forall|p: int| 72 <= p < 72 + i1__ ==> #[trigger] self.state@[p] == bit8(new_bits, p - 72)
            decreases n1__ - i1__
//@ at tail
        proof {
            assert forall|i: int| 0 <= i < 80 implies #[trigger] self.state@[i] == lfsr(old(self).state@, i + 8) by { if i >= 72 { let q = (i - 72) as usize; assert(((new_bits >> q) & 1 != 0) == lfsr(old(self).state@, 80 + q)); } }
        }
//@ method get_next_bit
//@ spec
        requires old(self).ok()
        ensures final(self).ok(), r == old(self).bits()(0), final(self).bits() == dropn(old(self).bits(), 1)
//@ at tail
        proof {
            let s = old(self).bits();
            if old(self).next_bit == 80 {
                assert forall|k: int| k >= 0 implies #[trigger] lfsr(self.state@, 72 + k) == lfsr(old(self).state@, 80 + k) by { lfsr_shift(old(self).state@, self.state@, 8, 72 + k); }
                assert forall|k: int| k >= 0 implies #[trigger] lfsr(self.state@, 73 + k) == lfsr(old(self).state@, 81 + k) by { assert(lfsr(self.state@, 72 + (k + 1)) == lfsr(old(self).state@, 80 + (k + 1))); }
                assert(lfsr(self.state@, 72 + 0int) == lfsr(old(self).state@, 80 + 0int));
                assert(self.bits() =~= dropn(s, 1));
            } else { assert(self.bits() =~= dropn(s, 1)); }
        }
//@ method next_field_element
//@ opt generator
//@ opt #[verifier::exec_allows_no_decreases_clause]
//@ spec
        requires old(self).ok()
        ensures final(self).ok(), r == elem::<F>(old(self).bits()), final(self).bits() == elem_rest::<F>(old(self).bits(), 1)
//@ at begin
        let ghost s0 = self.bits();
        let ghost mut q: nat = 0;
        proof { reveal_with_fuel(elem_rest, 2); assert(elem_rest::<F>(s0, 1) == raw_rest::<F>(s0, acc::<F>(s0) + 1)); }
//@ loop 0
            invariant_except_break b0__ is None, self.ok(), self.bits() == raw_rest::<F>(s0, q), forall|k: int| 0 <= k < q ==> number(#[trigger] raw_rest::<F>(s0, k as nat), F::NUM_BITS as nat) >= modulus::<F>()
            ensures self.ok(), q > 0, acc::<F>(s0) + 1 == q, self.bits() == raw_rest::<F>(s0, q), b0__ == Some(fnat::<F>(number(raw_rest::<F>(s0, (q - 1) as nat), F::NUM_BITS as nat)))
//@ at loop-begin 0
            let ghost s = self.bits();
//@ at before-loop 1
            proof { repr_room::<F>(); le_zero(view@); clear_bits(view@); assert(0 * pow2(F::NUM_BITS as nat) == 0); }
            let ghost vl = view@.len();
//@ loop 1
            invariant n1__ == F::NUM_BITS, i1__ <= n1__, view@.len() == vl, 8 * vl >= F::NUM_BITS, self.ok(), self.bits() == rest_n(s, i1__ as nat),
                le(view@) == number(s, i1__ as nat) * pow2((n1__ - i1__) as nat), forall|p: int| 0 <= p < n1__ - i1__ ==> !#[trigger] bit_of(view@, p)
            decreases n1__ - i1__
//@ at loop-begin 1
            let ghost v = view@;
//@ at loop-end 1
            proof { put_bit(v, view@, s, j1__ as nat, n1__ as nat, bit); }
//@ at after-loop 1
            proof { vstd::arithmetic::power2::lemma2_to64(); assert(i1__ == n1__ && i1__ as nat == F::NUM_BITS as nat && pow2((n1__ - i1__) as nat) == 1); let (a, e) = (number(s, i1__ as nat), pow2((n1__ - i1__) as nat)); assert(a * e == a) by (nonlinear_arith) requires e == 1; assert(self.bits() == raw_rest::<F>(s0, q + 1)); assert(le(view@) == number(s, F::NUM_BITS as nat));
                if is_acc::<F>(s0, q as int) { acc_is::<F>(s0, q as int); }
                q = q + 1; }
//@ method next_field_element_without_rejection
//@ opt generator
//@ opt #[verifier::exec_allows_no_decreases_clause]
//@ spec
        requires old(self).ok(), F::NUM_BITS <= 512
        ensures final(self).ok(), r == raw::<F>(old(self).bits()), final(self).bits() == raw_rest::<F>(old(self).bits(), 1)
//@ at begin
        let ghost s = self.bits();
//@ at before-loop 0
            proof { le_zero(view@); clear_bits(view@); assert(0 * pow2(F::NUM_BITS as nat) == 0); }
//@ loop 0
            invariant n0__ == F::NUM_BITS, i0__ <= n0__, view@.len() == 64, F::NUM_BITS <= 512, self.ok(), self.bits() == rest_n(s, i0__ as nat),
                le(view@) == number(s, i0__ as nat) * pow2((n0__ - i0__) as nat), forall|p: int| 0 <= p < n0__ - i0__ ==> !#[trigger] bit_of(view@, p)
            decreases n0__ - i0__
//@ at loop-begin 0
            let ghost v = view@;
//@ at loop-end 0
            proof { put_bit(v, view@, s, j0__ as nat, n0__ as nat, bit); }
//@ at after-loop 0
        proof { vstd::arithmetic::power2::lemma2_to64(); assert(i0__ == n0__ && i0__ as nat == F::NUM_BITS as nat && pow2((n0__ - i0__) as nat) == 1); let (a, e) = (number(s, i0__ as nat), pow2((n0__ - i0__) as nat)); assert(a * e == a) by (nonlinear_arith) requires e == 1; assert(le(view@) == number(s, F::NUM_BITS as nat)); reveal_with_fuel(raw_rest, 2); }
//@@end
//@@impl Iterator for Grain<F>
    closed spec fn wf(&self) -> bool { self.ok() }
//@ method next
//@ opt #[verifier::exec_allows_no_decreases_clause]
//@ spec
        ensures final(self).ok(), r == Some(out(old(self).bits())), final(self).bits() == rest(old(self).bits())
//@ at begin
        let ghost s0 = self.bits();
        let ghost mut q: int = 0;
//@ loop 0
            invariant_except_break q >= 0, self.ok(), self.bits() == dropn(s0, 2 * q), forall|k: int| 0 <= k < q ==> !#[trigger] s0(2 * k)
            ensures self.ok(), is_first(s0, q), self.bits() == dropn(s0, 2 * q + 1)
//@ at loop-end 0
            proof { assert(self.bits() =~= dropn(s0, 2 * (q + 1))); q = q + 1; }
//@ at tail
        proof { first_is(s0, q); assert(dropn(self.bits(), 1) =~= rest(s0)); assert(self.bits()(0) == out(s0)); }
//@@end
