// ---- the sponge, incrementally: state after the full blocks, and the words still in the buffer
pub open spec fn after<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int) -> (Seq<F>, Seq<F>) decreases m.len() {
    if m.len() == 0 { (s, seq![]) } else {
        let (t, b) = after(p, s, m.drop_last(), rate, at);
        if b.len() < rate { (t, b.push(m.last())) } else { (p(add_at(t, b, at)), seq![m.last()]) }
    }
}
pub proof fn after_len<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int)
    requires rate >= 1,
    ensures after(p, s, m, rate, at).1.len() == (if m.len() == 0 { 0 } else { (m.len() - 1) % rate + 1 }),
    decreases m.len()
{
    if m.len() > 0 {
        after_len(p, s, m.drop_last(), rate, at);
        let n = m.len() as int;
        if n >= 2 {
            let q = (n - 2) / rate; let r = (n - 2) % rate;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - 2, rate);
            assert(0 <= r < rate) by (nonlinear_arith) requires rate >= 1, r == (n - 2) % rate;
            if r + 1 == rate {
                assert(n - 1 == (q + 1) * rate + 0) by (nonlinear_arith) requires n - 2 == rate * q + r, r + 1 == rate;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, rate, q + 1, 0);
            } else {
                assert(n - 1 == q * rate + (r + 1)) by (nonlinear_arith) requires n - 2 == rate * q + r;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, rate, q, r + 1);
            }
        } else { assert(0int % rate == 0) by (nonlinear_arith) requires rate >= 1; }
        assert((n - 1) % rate < rate) by (nonlinear_arith) requires rate >= 1;
    }
}
pub proof fn after_small<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int)
    requires rate >= 1, m.len() <= rate,
    ensures after(p, s, m, rate, at) == (s, m),
    decreases m.len()
{
    if m.len() > 0 { after_small(p, s, m.drop_last(), rate, at); assert(m.drop_last().push(m.last()) =~= m); } else { assert(m =~= seq![]); }
}
pub proof fn after_front<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int)
    requires rate >= 1, m.len() > rate,
    ensures after(p, s, m, rate, at) == after(p, p(add_at(s, m.subrange(0, rate), at)), m.subrange(rate, m.len() as int), rate, at),
    decreases m.len()
{
    let h = m.subrange(0, rate);
    let t = m.subrange(rate, m.len() as int);
    if m.len() == rate + 1 {
        assert(m.drop_last() =~= h);
        after_small(p, s, m.drop_last(), rate, at);
        after_small(p, p(add_at(s, h, at)), t, rate, at);
        assert(t =~= seq![m.last()]);
    } else {
        after_front(p, s, m.drop_last(), rate, at);
        assert(m.drop_last().subrange(0, rate) =~= h);
        assert(m.drop_last().subrange(rate, m.len() - 1) =~= t.drop_last());
        assert(t.last() == m.last());
    }
}
/// flushing the buffer gives the sponge
pub proof fn after_is_sponge<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int)
    requires rate >= 1,
    ensures p(add_at(after(p, s, m, rate, at).0, after(p, s, m, rate, at).1, at)) == sponge(p, s, m, rate, at),
    decreases m.len()
{
    if m.len() <= rate { after_small(p, s, m, rate, at); }
    else {
        after_front(p, s, m, rate, at);
        after_is_sponge(p, p(add_at(s, m.subrange(0, rate), at)), m.subrange(rate, m.len() as int), rate, at);
    }
}
/// number of leading Some
pub open spec fn lead<F>(b: Seq<Option<F>>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else if b[0] is None { 0 } else { 1 + lead(b.skip(1)) }
}
pub open spec fn is_lead<F>(b: Seq<Option<F>>, n: int) -> bool {
    0 <= n <= b.len() && (forall|i: int| 0 <= i < n ==> #[trigger] b[i] is Some) && (n < b.len() ==> b[n] is None)
}
pub open spec fn all_some<F>(b: Seq<Option<F>>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] is Some }
pub open spec fn all_none<F>(b: Seq<Option<F>>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] is None }
pub open spec fn vals<F>(b: Seq<Option<F>>) -> Seq<F> { Seq::new(b.len(), |i: int| b[i]->0) }
pub open spec fn somes<F>(b: Seq<F>, n: int) -> Seq<Option<F>> { Seq::new(n as nat, |i: int| if i < b.len() { Some(b[i]) } else { None }) }
/// the buffer holds exactly the words b
pub open spec fn holds<F>(o: Seq<Option<F>>, b: Seq<F>) -> bool { b.len() <= o.len() && o == somes(b, o.len() as int) }
/// the words padded with zeros to whole blocks
pub proof fn pad_facts(n: int, r: int)
    requires r >= 1, n >= 0,
    ensures 0 <= pad_len(n, r) < r, (n + pad_len(n, r)) % r == 0, n % r == 0 ==> pad_len(n, r) == 0, n % r != 0 ==> pad_len(n, r) == r - n % r, 0 <= n % r < r,
      n + pad_len(n, r) == ((n + r - 1) / r) * r, (n + r - 1) / r >= 0,
{
    let q = n / r; let m = n % r;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, r);
    assert(0 <= m < r && q >= 0) by (nonlinear_arith) requires r >= 1, n >= 0, q == n / r, m == n % r;
    if m == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r, r, 1, 0);
        assert(n + r - 1 == q * r + (r - 1)) by (nonlinear_arith) requires n == r * q + 0;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + r - 1, r, q, r - 1);
        assert(n == q * r) by (nonlinear_arith) requires n == r * q;
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r - m, r, 0, r - m);
        assert(n + (r - m) == (q + 1) * r + 0) by (nonlinear_arith) requires n == r * q + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + (r - m), r, q + 1, 0);
        assert(n + r - 1 == (q + 1) * r + (m - 1)) by (nonlinear_arith) requires n == r * q + m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + r - 1, r, q + 1, m - 1);
    }
}
/// whole blocks leave a full buffer
pub proof fn after_full<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int)
    requires rate >= 1, m.len() > 0, m.len() as int % rate == 0,
    ensures after(p, s, m, rate, at).1.len() == rate
{
    after_len(p, s, m, rate, at);
    let n = m.len() as int; let q = n / rate;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, rate);
    assert(n - 1 == (q - 1) * rate + (rate - 1)) by (nonlinear_arith) requires n == rate * q + 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, rate, q - 1, rate - 1);
}
// ---- field laws (assumed)
pub broadcast axiom fn ring_add0<F: Field>(a: F) ensures #[trigger] fadd(fzero::<F>(), a) == a;
pub axiom fn ring_laws<F: Field>(a: F, b: F, c: F) ensures fadd(a, b) == fadd(b, a), fadd(fadd(a, b), c) == fadd(a, fadd(b, c)), fadd(a, fzero()) == a, fadd(fzero(), a) == a,
    fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c)), fmul(a, fzero()) == fzero::<F>(), fmul(a, b) == fmul(b, a), fmul(fmul(a, b), c) == fmul(a, fmul(b, c)), fmul(fnat(1), a) == a;
pub broadcast axiom fn mul_comm<F: Field>(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn mul_assoc<F: Field>(a: F, b: F, c: F) ensures #[trigger] fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub broadcast axiom fn add_comm<F: Field>(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast group mul_laws { mul_comm, mul_assoc }
pub broadcast group comm { mul_comm, add_comm }
pub proof fn pow5<F: Field>(v: F) ensures fpow(v, 5) == fmul(fmul(fmul(fmul(v, v), v), v), v) { reveal_with_fuel(fpow, 6); ring_laws::<F>(v, v, v); }
pub open spec fn cp<F: FromUniformBytes<64> + Ord, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize>() -> spec_fn(Seq<F>) -> Seq<F> { |x: Seq<F>| cperm::<F, S, T, RATE>(x) }
pub open spec fn ok_spec<F: FromUniformBytes<64> + Ord, S: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize>() -> bool {
    T > 0 && RATE <= T && RATE >= 1 && T < 0x1_0000 && S::s_full_rounds() + S::s_partial_rounds() < 0x1_0000_0000
}
