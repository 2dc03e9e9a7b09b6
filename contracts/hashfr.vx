// ---- the field's parameters: published_rc / published_mds name the values of the tables in bn256/fp.rs
// (that those values are the published ones is a concrete check, C01/C07)
pub uninterp spec fn published_rc() -> Seq<Seq<Fr>>;
pub uninterp spec fn published_mds() -> Seq<Seq<Fr>>;
pub axiom fn published_shape() ensures published_rc().len() == 65, wide(published_rc(), 3), published_mds().len() == 3, wide(published_mds(), 3);
/// the published permutation
pub open spec fn pperm() -> spec_fn(Seq<Fr>) -> Seq<Fr> { |s: Seq<Fr>| perm::<Fr, P128Pow5T3<Fr>, 3, 2>(s, published_mds(), published_rc()) }
pub type Fp = Fr;
//@@file poseidon-base/src/primitives/bn256/mod.rs
//@@impl P128Pow5T3ConstantsforFp as Fr
    open spec fn s_rp() -> nat { 57 }
    open spec fn s_prc() -> Seq<Seq<Fr>> { published_rc() }
    open spec fn s_pmds() -> Seq<Seq<Fr>> { published_mds() }
//@ method partial_rounds
//@ method round_constants
//@ opt trusted
//@ method mds
//@ opt trusted
//@ method mds_inv
//@ opt trusted
//@@end
//@@file poseidon-base/src/hash.rs
//@@type HashSpec
pub mod bn254 { use super::*; use super::Mds as MdsT; verus! {
broadcast use super::super::ax;
pub type F = Fr;
//@@file poseidon-base/src/params.rs
//@@type Mds
//@@lazy CONSTANTS
    ensures rows((r).0@) == compact(published_rc(), published_mds(), 4, 57), rows((r).1@) == published_mds()
//@ at begin
    proof { published_shape(); }
//@@end
//@@impl CachedSpec<F,3,2>forHashSpec<F> as HashSpec
    open spec fn s_rc() -> Seq<Seq<F>> { compact(published_rc(), published_mds(), 4, 57) }
    open spec fn s_mds() -> Seq<Seq<F>> { published_mds() }
//@ method cached_round_constants
//@ method cached_mds
//@@end
} }
/// both parameter sets run the same rounds
pub proof fn same_rounds(s: Seq<Fr>, m: Seq<Seq<Fr>>, rc: Seq<Seq<Fr>>, n: nat)
    ensures rounds::<Fr, HashSpec<Fr>, 3, 2>(s, m, rc, n) == rounds::<Fr, P128Pow5T3<Fr>, 3, 2>(s, m, rc, n) decreases n
{
    if n > 0 {
        same_rounds(s, m, rc, (n - 1) as nat);
        let t = rounds::<Fr, HashSpec<Fr>, 3, 2>(s, m, rc, (n - 1) as nat);
        assert(add_rc(t, rc[n - 1]).map_values(|x: Fr| <HashSpec<Fr> as Spec<Fr, 3, 2>>::s_sbox(x)) =~= add_rc(t, rc[n - 1]).map_values(|x: Fr| <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::s_sbox(x)));
    }
}
/// the permutation the hashers run (cached, compacted constants) is the published one
pub proof fn cached_is_published(s: Seq<Fr>)
    requires s.len() == 3
    ensures cperm::<Fr, HashSpec<Fr>, 3, 2>(s) == pperm()(s)
{
    published_shape();
    compact_same::<Fr, HashSpec<Fr>, 3, 2>(s, published_mds(), published_rc(), 57);
    compact_len(published_rc(), published_mds(), 4, 57);
    same_rounds(s, published_mds(), published_rc(), 65);
}
/// sponges over equal permutations are equal
pub proof fn sponge_same(p: spec_fn(Seq<Fr>) -> Seq<Fr>, q: spec_fn(Seq<Fr>) -> Seq<Fr>, s: Seq<Fr>, m: Seq<Fr>, rate: int, at: int, t: nat)
    requires s.len() == t, forall|x: Seq<Fr>| x.len() == t ==> #[trigger] p(x) == q(x) && p(x).len() == t,
    ensures sponge(p, s, m, rate, at) == sponge(q, s, m, rate, at)
    decreases m.len()
{
    if m.len() <= rate || rate <= 0 { assert(add_at(s, m, at).len() == t); }
    else {
        let a = add_at(s, m.subrange(0, rate), at);
        assert(a.len() == t);
        sponge_same(p, q, p(a), m.subrange(rate, m.len() as int), rate, at, t);
    }
}
pub proof fn digest_same(at: int, cap: Fr, m: Seq<Fr>)
    ensures digest(cp::<Fr, HashSpec<Fr>, 3, 2>(), 3, 2, at, cap, m) == digest(pperm(), 3, 2, at, cap, m)
{
    let s = start(3, cap_at(2, at, 3), cap);
    assert(s.len() == 3);
    assert forall|x: Seq<Fr>| x.len() == 3 implies #[trigger] cp::<Fr, HashSpec<Fr>, 3, 2>()(x) == pperm()(x) && cp::<Fr, HashSpec<Fr>, 3, 2>()(x).len() == 3 by {
        cached_is_published(x);
        rounds_len::<Fr, P128Pow5T3<Fr>, 3, 2>(x, published_mds(), published_rc(), 65);
        published_shape();
    }
    sponge_same(cp::<Fr, HashSpec<Fr>, 3, 2>(), pperm(), s, padded(m, 2), 2, at, 3);
}
/// C03: the pair digest is one permutation of (domain, a, b)
pub proof fn pair_digest(d: Fr, m: Seq<Fr>)
    requires m.len() == 2
    ensures digest(pperm(), 3, 2, 1, d, m) == pperm()(seq![d, m[0], m[1]])[0]
{
    assert(padded(m, 2) =~= m) by { assert(pad_len(2, 2) == 0); }
    ring_laws::<Fr>(m[0], m[0], m[0]); ring_laws::<Fr>(m[1], m[1], m[1]);
    assert(cap_at(2, 1, 3) == 0);
    assert(add_at(start(3, 0, d), m, 1) =~= seq![d, m[0], m[1]]);
}

// ---- poseidon-base/src/hash.rs
//@@file poseidon-base/src/hash.rs
//@@const HASHABLE_DOMAIN_SPEC
pub trait Hashable: P128Pow5T3Constants {
    type SpecType: CachedSpec<Self, 3, 2>;
    type DomainType: Domain<Self, 2>;
    spec fn s_ok() -> bool;
    spec fn s_hash(inp: Seq<Self>, domain: Self) -> Self;
//@@default Hashable::hash
        requires Self::s_ok()
        ensures r == Self::s_hash(inp@, fzero())
//@@end
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> (r: Self)
        requires Self::s_ok()
        ensures r == Self::s_hash(inp@, domain);
//@@default Hashable::hash_block_size
        requires <Self::SpecType as Spec<Self, 3, 2>>::s_full_rounds() < 0x1_0000_0000, <Self::SpecType as Spec<Self, 3, 2>>::s_partial_rounds() < 0x1_0000_0000,
//@@if short
        ensures r == 1 + <Self::SpecType as Spec<Self, 3, 2>>::s_full_rounds()
//@@else
        ensures r == 1 + <Self::SpecType as Spec<Self, 3, 2>>::s_full_rounds() + (<Self::SpecType as Spec<Self, 3, 2>>::s_partial_rounds() + 1) / 2
//@@fi
//@@end
//@@default Hashable::hasher
        requires Self::s_ok(), ok_spec::<Self, Self::SpecType, 3, 2>(), 0 <= <Self::DomainType as Domain<Self, 2>>::s_layout(3) <= 1
        ensures r.fresh()
//@@end
}
pub trait MessageHashable: Hashable {
    type DomainType: Domain<Self, 2>;
    spec fn s_msg_ok() -> bool;
    spec fn s_hash_msg(msg: Seq<Self>, cap: nat) -> Self;
    fn hash_msg(msg: &[Self], cap: Option<u128>) -> (r: Self)
        requires Self::s_msg_ok(), msg@.len() > 0,
        ensures r == Self::s_hash_msg(msg@, if cap is Some { cap->0 as nat } else { msg@.len() * s_domain_spec() });
//@@default MessageHashable::msg_hasher
        requires Self::s_msg_ok(), ok_spec::<Self, <Self as Hashable>::SpecType, 3, 2>(), 0 <= <<Self as MessageHashable>::DomainType as Domain<Self, 2>>::s_layout(3) <= 1
        ensures r.fresh()
//@@end
}
//@@if legacy
pub open spec fn s_domain_spec() -> nat { 1 }
//@@else
pub open spec fn s_domain_spec() -> nat { 0x1_0000_0000_0000_0000 }
//@@fi
//@@impl HashableforFr as Hashable(Fr)
    open spec fn s_ok() -> bool { true }
    open spec fn s_hash(inp: Seq<Self>, domain: Self) -> Self { pperm()(seq![domain, inp[0], inp[1]])[0] }
//@ method hash_with_domain
//@ at begin
        proof { digest_same(1, domain, inp@); pair_digest(domain, inp@); }
//@ method hasher
//@@end
//@@impl MessageHashableforFr as MessageHashable(Fr)
    open spec fn s_msg_ok() -> bool { true }
    open spec fn s_hash_msg(msg: Seq<Self>, cap: nat) -> Self { digest(pperm(), 3, 2, 1, fnat(cap), msg) }
//@ method hash_msg
//@ at begin
        proof { digest_same(1, fnat(if cap is Some { cap->0 as nat } else { msg@.len() * s_domain_spec() }), msg@); }
//@ method msg_hasher
//@@end
