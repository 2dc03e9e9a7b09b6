// ---- the sponge and its digest, as functions
pub open spec fn zeros<F>(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| fzero::<F>()) }
pub open spec fn pad_len(n: int, r: int) -> int { (r - n % r) % r }
/// s with the words of b added from position at on
pub open spec fn add_at<F>(s: Seq<F>, b: Seq<F>, at: int) -> Seq<F> {
    Seq::new(s.len(), |i: int| if at <= i < at + b.len() { fadd(s[i], b[i - at]) } else { s[i] })
}
/// the sponge: blocks of rate words are added at position at, the permutation follows each block
pub open spec fn sponge<F>(p: spec_fn(Seq<F>) -> Seq<F>, s: Seq<F>, m: Seq<F>, rate: int, at: int) -> Seq<F> decreases m.len() {
    if m.len() <= rate || rate <= 0 { p(add_at(s, m, at)) } else { sponge(p, p(add_at(s, m.subrange(0, rate), at)), m.subrange(rate, m.len() as int), rate, at) }
}
pub open spec fn padded<F>(m: Seq<F>, rate: int) -> Seq<F> { m + zeros::<F>(pad_len(m.len() as int, rate)) }
pub open spec fn cap_at(rate: int, at: int, t: int) -> int { (rate + at) % t }
pub open spec fn start<F>(t: int, pos: int, cap: F) -> Seq<F> { zeros::<F>(t).update(pos, cap) }
/// the sponge digest of the zero-padded message
pub open spec fn digest<F>(p: spec_fn(Seq<F>) -> Seq<F>, t: int, rate: int, at: int, cap: F, m: Seq<F>) -> F {
    sponge(p, start(t, cap_at(rate, at, t), cap), padded(m, rate), rate, at)[0]
}
