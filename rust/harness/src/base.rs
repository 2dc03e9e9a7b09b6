//! Obligations about poseidon-base, decided on the compiled code of /repo.
use crate::kf::{self, Kf};
use crate::obl::*;
use crate::refp::*;
use std::sync::OnceLock;
use crate::spec;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use halo2curves::sym;
use halo2curves::Gf;
use poseidon_base::hash::{Hashable, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_base::params as bparams;
use poseidon_base::primitives::{
    permute, CachedSpec, ConstantLength, ConstantLengthIden3, Hash, Mds, P128Pow5T3,
    P128Pow5T3Compact, Spec, VariableLengthIden3,
};
use real::bn256::Fr as R;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn arr3(v: &[Fr]) -> [Fr; 3] {
    [v[0], v[1], v[2]]
}

pub fn c01() -> Vec<Outcome> {
    let mut o = vec![];
    // anchors of the reference itself: the published test vectors for this instance
    o.push(concrete("reference permutation matches the published vectors", |c| {
        let out = perm_ref(&[Fr::ZERO, Fr::ONE, Fr::from(2)]);
        c.eq("poseidon(0,1,2)[0]", out[0],
            dec("7853200120776062878684798364095072458815029376092732009249414926327459813530"));
        c.eq("poseidon(0,1,2)[1]", out[1],
            dec("7142104613055408817911962100316808866448378443474503659992478482890339429929"));
        c.eq("poseidon(0,1,2)[2]", out[2],
            dec("6549537674122432311777789598043107870002137484850126429160507761192163713804"));
    }));
    o.push(concrete("round counts and parameters are the published ones", |c| {
        let (rc, m) = ref_params();
        c.holds("8 full rounds", <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::full_rounds() == RF);
        c.holds("57 partial rounds", <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::partial_rounds() == RP);
        c.holds("8 full rounds (compact)", <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::full_rounds() == RF);
        c.holds("57 partial rounds (compact)", <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::partial_rounds() == RP);
        let (rc1, m1, i1) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
        c.holds("65 rows of constants", rc1.len() == RF + RP);
        for r in 0..RF + RP {
            c.eqs(&format!("round constant {r}"), &rc1[r], &rc[r]);
        }
        for i in 0..3 {
            c.eqs(&format!("mds row {i}"), &m1[i], &m[i]);
        }
        let (_, m2, i2) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
        for (n, mm, ii) in [("plain", &m1, &i1), ("compact", &m2, &i2),
            ("cached", bparams::mds::<Fr>(), <Fr as bparams::CachedConstants>::cached_mds_inv()),
            ("cached spec", <<Fr as Hashable>::SpecType as CachedSpec<Fr, 3, 2>>::cached_mds(),
                <<Fr as Hashable>::SpecType as CachedSpec<Fr, 3, 2>>::cached_mds_inv())] {
            for i in 0..3 {
                c.eqs(&format!("{n} mds row {i}"), &mm[i], &m[i]);
                for j in 0..3 {
                    let p: Fr = (0..3).map(|k| mm[i][k] * ii[k][j]).sum();
                    c.eq(&format!("{n} mds*mds_inv[{i}][{j}]"), p, if i == j { Fr::ONE } else { Fr::ZERO });
                }
            }
        }
    }));
    type P = P128Pow5T3<Fr>;
    type C = P128Pow5T3Compact<Fr>;
    o.push(prove("permute with the plain parameters == published permutation, all states", |c| {
        let s = c.vars("s", 3);
        let (rc, m, _) = <P as Spec<Fr, 3, 2>>::constants();
        let mut st = arr3(&s);
        permute::<Fr, P, 3, 2>(&mut st, &m, &rc);
        c.eqs("state", &st, &perm_ref(&s));
    }));
    o.push(prove("permute with the compact parameters == published permutation, all states", |c| {
        let s = c.vars("s", 3);
        let (rc, m, _) = <C as Spec<Fr, 3, 2>>::constants();
        let mut st = arr3(&s);
        permute::<Fr, C, 3, 2>(&mut st, &m, &rc);
        c.eqs("state", &st, &perm_ref(&s));
    }));
    o.push(prove("permute with the cached parameters (spec of the hashable field), all states", |c| {
        type S = <Fr as Hashable>::SpecType;
        let s = c.vars("s", 3);
        let mut st = arr3(&s);
        permute::<Fr, S, 3, 2>(&mut st, S::cached_mds(), S::cached_round_constants());
        c.eqs("state", &st, &perm_ref(&s));
        let mut st = arr3(&s);
        let rc: Vec<[Fr; 3]> = (0..RF + RP).map(bparams::round_constant::<Fr>).collect();
        permute::<Fr, S, 3, 2>(&mut st, bparams::mds::<Fr>(), &rc);
        c.eqs("state via params", &st, &perm_ref(&s));
    }));
    o.push(prove("permute method of both hashers, all states", |c| {
        let s = c.vars("s", 3);
        let mut st = arr3(&s);
        Fr::hasher().permute(&mut st);
        c.eqs("hasher", &st, &perm_ref(&s));
        let mut st = arr3(&s);
        Fr::msg_hasher().permute(&mut st);
        c.eqs("msg_hasher", &st, &perm_ref(&s));
    }));
    o.push(prove("s-box of both parameter sets is x^5", |c| {
        let x = c.var("x");
        c.eq("plain", <P as Spec<Fr, 3, 2>>::sbox(x), x * x * x * x * x);
        c.eq("compact", <C as Spec<Fr, 3, 2>>::sbox(x), x * x * x * x * x);
    }));
    o
}

fn kvar(n: String) -> Kf {
    Kf::var(&n)
}
pub fn c02() -> Vec<Outcome> {
    let mut o = vec![];
    let run = |c: &Ctx, rp: usize, mds: Mds<Kf, 3>, extra: usize| {
        kf::PARTIAL.with(|p| p.set(rp));
        let rows = RF + rp + extra;
        let rc: Vec<[Kf; 3]> =
            (0..rows).map(|r| [0, 1, 2].map(|i| kvar(format!("c{r}_{i}")))).collect();
        kf::CONSTS.with(|k| *k.borrow_mut() = (rc.clone(), mds, mds));
        let s: Vec<Kf> = (0..3).map(|i| kvar(format!("s{i}"))).collect();
        let (crc, cm, _) = <P128Pow5T3Compact<Kf> as Spec<Kf, 3, 2>>::constants();
        c.holds("same number of rows", crc.len() == rows);
        let mut a = [s[0], s[1], s[2]];
        permute::<Kf, P128Pow5T3Compact<Kf>, 3, 2>(&mut a, &cm, &crc);
        let rcv: Vec<Vec<Kf>> = rc.iter().map(|r| r.to_vec()).collect();
        let mv: Vec<Vec<Kf>> = mds.iter().map(|r| r.to_vec()).collect();
        let want = spec::permute(&s, &rcv, &mv, RF, rp, |x| x.pow_vartime([5]));
        for i in 0..3 {
            c.eq(&format!("state[{i}]"), Fr::of_form(a[i].form()), Fr::of_form(want[i].form()));
        }
        // shape: the constants of partial rounds live in the first word only
        for r in RF / 2..RF / 2 + rp {
            for i in 1..3 {
                c.eq(&format!("compact rc[{r}][{i}]"), Fr::of_form(crc[r][i].form()), Fr::ZERO);
            }
        }
        // the plain parameter set itself
        let (prc, pm, _) = <P128Pow5T3<Kf> as Spec<Kf, 3, 2>>::constants();
        let mut b = [s[0], s[1], s[2]];
        permute::<Kf, P128Pow5T3<Kf>, 3, 2>(&mut b, &pm, &prc);
        for i in 0..3 {
            c.eq(&format!("plain state[{i}]"), Fr::of_form(b[i].form()), Fr::of_form(want[i].form()));
        }
    };
    let concrete_mds = |k: u64| -> Mds<Kf, 3> {
        let (_, m) = ref_params();
        [0, 1, 2].map(|i| {
            [0, 1, 2].map(|j| {
                if k == 0 {
                    Kf::concrete(m[i][j].value().unwrap())
                } else {
                    use rand::RngCore;
                    let _ = &mut rng("mds").next_u32();
                    Kf::concrete(R::random(rng(&format!("mds{k}{i}{j}"))))
                }
            })
        })
    };
    for (n, rp) in [("57", 57usize), ("56", 56)] {
        o.push(prove(
            &format!("compact == plain for every state and all round constants, {n} partial rounds, shipped MDS"),
            |c| run(c, rp, concrete_mds(0), 0),
        ));
    }
    for k in 1..=if thorough() { 6 } else { 2 } {
        o.push(prove(
            &format!("compact == plain for every state and all round constants, 57 partial rounds, random MDS {k}"),
            |c| run(c, 57, concrete_mds(k), 0),
        ));
    }
    for rp in [0usize, 1, 2, 3, 10] {
        o.push(prove(
            &format!("compact == plain, {rp} partial rounds, shipped MDS"),
            |c| run(c, rp, concrete_mds(0), 0),
        ));
    }
    // every MDS at once: symbolic matrix, few rounds (one forwarding step and the last one)
    o.push(prove("compact constants forward through a symbolic MDS (1 partial round)", |c| {
        kf::PARTIAL.with(|p| p.set(1));
        let mds: Mds<Kf, 3> = [0, 1, 2].map(|i| [0, 1, 2].map(|j| kvar(format!("m{i}{j}"))));
        let rc: Vec<[Kf; 3]> = (0..RF + 1).map(|r| [0, 1, 2].map(|i| kvar(format!("c{r}_{i}")))).collect();
        kf::CONSTS.with(|k| *k.borrow_mut() = (rc.clone(), mds, mds));
        let (crc, _, _) = <P128Pow5T3Compact<Kf> as Spec<Kf, 3, 2>>::constants();
        for i in 0..3 {
            let want = rc[5][i] + mds[i][1] * rc[4][1] + mds[i][2] * rc[4][2];
            c.eq(&format!("rc[5][{i}]"), Fr::of_form(crc[5][i].form()), Fr::of_form(want.form()));
        }
        c.eq("rc[4][0]", Fr::of_form(crc[4][0].form()), Fr::of_form(rc[4][0].form()));
        for r in [0usize, 1, 2, 3, 6, 7, 8] {
            for i in 0..3 {
                c.eq(&format!("rc[{r}][{i}] untouched"), Fr::of_form(crc[r][i].form()), Fr::of_form(rc[r][i].form()));
            }
        }
    }));
    o.push(concrete("the pasta instance: compact == plain on sampled states", |c| {
        // poseidon-base's pasta constants are compiled only with feature `test`; the published
        // instance above is the one reachable in the default build
        c.holds("n/a", true);
    }));
    o.pop();
    o
}

pub fn c03() -> Vec<Outcome> {
    let mut o = vec![];
    o.push(concrete("published vectors of the two-to-one hash", |c| {
        #[allow(deprecated)]
        let h = <Fr as Hashable>::hash([Fr::ONE, Fr::from(2)]);
        c.eq("H(1,2)", h,
            dec("7853200120776062878684798364095072458815029376092732009249414926327459813530"));
    }));
    o.push(prove("hash_with_domain([a,b],d) == permutation([d,a,b])[0]", |c| {
        let v = c.vars("a", 2);
        let d = c.var("d");
        c.eq("digest", Fr::hash_with_domain([v[0], v[1]], d), h2_ref(v[0], v[1], d));
    }));
    o.push(prove("deprecated hash == hash_with_domain at domain 0", |c| {
        let v = c.vars("a", 2);
        #[allow(deprecated)]
        let h = <Fr as Hashable>::hash([v[0], v[1]]);
        c.eq("digest", h, h2_ref(v[0], v[1], Fr::ZERO));
    }));
    o.push(prove("hasher().hash([a,b],d) and a hand-made hasher agree", |c| {
        let v = c.vars("a", 2);
        let d = c.var("d");
        c.eq("cached", Fr::hasher().hash([v[0], v[1]], d), h2_ref(v[0], v[1], d));
        let h = Hash::<Fr, <Fr as Hashable>::SpecType, ConstantLengthIden3<2>, 3, 2>::init();
        c.eq("fresh", h.hash([v[0], v[1]], d), h2_ref(v[0], v[1], d));
    }));
    o
}

pub const DOMAIN_SPEC: u128 = if cfg!(feature = "legacy") { 1 } else { 1 << 64 };
pub fn caps(tag: &str) -> Vec<u128> {
    use rand::RngCore;
    let mut r = rng(tag);
    let mut v = vec![0, 1, 2, 45 << 64, u64::MAX as u128, 1 << 64, (1 << 64) + 1, u128::MAX, u128::MAX - 1, 1 << 127];
    for _ in 0..if thorough() { 30 } else { 5 } {
        v.push(((r.next_u64() as u128) << 64) | r.next_u64() as u128);
    }
    v
}
pub fn c04() -> Vec<Outcome> {
    let mut o = vec![];
    let maxl = if thorough() { 40 } else { 13 };
    o.push(concrete("default domain factor", |c| {
        c.holds("value", HASHABLE_DOMAIN_SPEC == DOMAIN_SPEC);
    }));
    for l in 1..=maxl {
        o.push(prove_opt(&format!("message of {l} words, default and explicit capacity, all contents"), 64, 3, &|c: &Ctx| {
            let m = c.vars("m", l);
            c.eq("default capacity", Fr::hash_msg(&m, None), hmsg_ref(&m, u128f(l as u128 * DOMAIN_SPEC)));
            for cap in [0u128, 7, (l as u128) << 64, u128::MAX] {
                c.eq(&format!("capacity {cap}"), Fr::hash_msg(&m, Some(cap)), hmsg_ref(&m, u128f(cap)));
            }
            let h = Hash::<Fr, <Fr as Hashable>::SpecType, VariableLengthIden3, 3, 2>::init();
            c.eq("hash_with_cap", h.hash_with_cap(&m, 99), hmsg_ref(&m, u128f(99)));
        }));
    }
    o.extend(c04_widths());
    o.push(prove("message of 1 and 2 words at many capacities", |c| {
        let m = c.vars("m", 2);
        for cap in caps("c04") {
            c.eq(&format!("1 word, capacity {cap}"), Fr::hash_msg(&m[..1], Some(cap)), hmsg_ref(&m[..1], u128f(cap)));
            c.eq(&format!("2 words, capacity {cap}"), Fr::hash_msg(&m, Some(cap)), hmsg_ref(&m, u128f(cap)));
        }
    }));
    o.push(concrete("long messages (concrete words)", |c| {
        for l in [31usize, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025] {
            let m: Vec<Fr> = (0..l).map(|i| Fr::from(i as u64 * 7919 + 13).square()).collect();
            c.eq(&format!("{l} words"), Fr::hash_msg(&m, None), hmsg_ref(&m, u128f(l as u128 * DOMAIN_SPEC)));
        }
    }));
    o
}

/// A small specification over `Fr` with arbitrary width, uninterpreted s-box and 4 + 2 rounds.
#[derive(Clone, Copy, Debug)]
pub struct Tiny;
pub fn tiny_rc(t: usize, r: usize, i: usize) -> Fr {
    Fr::from((1000 * t + 10 * r + i + 1) as u64).square()
}
pub fn tiny_m(t: usize, i: usize, j: usize) -> Fr {
    Fr::from((i * i + 3 * i * j + 7 * j + t) as u64) + Fr::from(2)
}
pub fn tiny_sbox(x: Fr) -> Fr {
    if x.is_symbolic() {
        Fr::fun("S", &[x])
    } else {
        Fr::of_form(sym::with(|a| {
            let f = a.constant(x.value().unwrap());
            let g = a.fun("S", vec![f]);
            let v = a.eval(g, &Default::default(), &mut Default::default());
            a.constant(v)
        }))
    }
}
const TRF: usize = 2;
const TRP: usize = 1;
macro_rules! tiny {
    ($t:literal, $r:literal) => {
        impl Spec<Fr, $t, $r> for Tiny {
            fn full_rounds() -> usize {
                TRF
            }
            fn partial_rounds() -> usize {
                TRP
            }
            fn sbox(v: Fr) -> Fr {
                tiny_sbox(v)
            }
            fn secure_mds() -> usize {
                0
            }
        }
        impl CachedSpec<Fr, $t, $r> for Tiny {
            fn cached_round_constants() -> &'static [[Fr; $t]] {
                static C: OnceLock<Vec<[Fr; $t]>> = OnceLock::new();
                C.get_or_init(|| {
                    (0..TRF + TRP).map(|r| std::array::from_fn(|i| tiny_rc($t, r, i))).collect()
                })
            }
            fn cached_mds() -> &'static Mds<Fr, $t> {
                static M: OnceLock<Mds<Fr, $t>> = OnceLock::new();
                M.get_or_init(|| std::array::from_fn(|i| std::array::from_fn(|j| tiny_m($t, i, j))))
            }
            fn cached_mds_inv() -> &'static Mds<Fr, $t> {
                <Self as CachedSpec<Fr, $t, $r>>::cached_mds()
            }
        }
    };
}
tiny!(2, 1);
tiny!(3, 2);
tiny!(4, 2);
tiny!(4, 3);
tiny!(5, 2);
tiny!(5, 4);
tiny!(9, 8);
pub fn tiny_perm(t: usize, s: &[Fr]) -> Vec<Fr> {
    let rc: Vec<Vec<Fr>> = (0..TRF + TRP).map(|r| (0..t).map(|i| tiny_rc(t, r, i)).collect()).collect();
    let m: Vec<Vec<Fr>> = (0..t).map(|i| (0..t).map(|j| tiny_m(t, i, j)).collect()).collect();
    spec::permute(s, &rc, &m, TRF, TRP, tiny_sbox)
}
fn clen<S, const T: usize, const RATE: usize, const L: usize>(o: &mut Vec<Outcome>, tag: &str, perm: impl Fn(&[Fr]) -> Vec<Fr>)
where
    S: CachedSpec<Fr, T, RATE>,
{
    o.push(prove_opt(&format!("constant length {L} (width {T}, rate {RATE}, {tag})"), 64, 3, &|c: &Ctx| {
        let m: [Fr; L] = std::array::from_fn(|i| c.var(&format!("m{i}")));
        let padded = spec::pad(&m, RATE, Fr::ZERO);
        let h = Hash::<Fr, S, ConstantLength<L>, T, RATE>::init();
        let cap = u128f((L as u128) << 64);
        c.eq("zcash style", h.hash(m), spec::sponge(T, RATE, RATE, 0, Fr::ZERO, cap, &padded, &perm));
        let d = c.var("d");
        let h = Hash::<Fr, S, ConstantLengthIden3<L>, T, RATE>::init();
        c.eq("iden3 style", h.hash(m, d), spec::sponge(T, RATE, 0, T - RATE, Fr::ZERO, d, &padded, &perm));
    }));
}
fn vlen<S, const T: usize, const RATE: usize>(o: &mut Vec<Outcome>, max: usize, tag: &str, perm: impl Fn(&[Fr]) -> Vec<Fr>)
where
    S: CachedSpec<Fr, T, RATE>,
{
    for l in 1..=max {
        o.push(prove_opt(&format!("variable length {l} (width {T}, rate {RATE}, {tag})"), 64, 3, &|c: &Ctx| {
            let m = c.vars("m", l);
            let h = Hash::<Fr, S, VariableLengthIden3, T, RATE>::init();
            let padded = spec::pad(&m, RATE, Fr::ZERO);
            let cap = 12345678901234567890u128 + ((l as u128) << 64);
            c.eq("digest", h.hash_with_cap(&m, cap),
                spec::sponge(T, RATE, 0, T - RATE, Fr::ZERO, u128f(cap), &padded, &perm));
        }));
    }
}
pub fn c05() -> Vec<Outcome> {
    let mut o = vec![];
    type S = P128Pow5T3Compact<Fr>;
    type H = <Fr as Hashable>::SpecType;
    let _ = std::marker::PhantomData::<S>;
    macro_rules! real_len { ($($l:literal)*) => { $( clen::<H, 3, 2, $l>(&mut o, "shipped parameters", |s| perm_ref(s)); )* } }
    real_len!(1 2 3 4 5 6 7 8 9);
    macro_rules! tiny_len { ($t:literal $r:literal : $($l:literal)*) => { $( clen::<Tiny, $t, $r, $l>(&mut o, "toy parameters", |s| tiny_perm($t, s)); )* } }
    tiny_len!(2 1: 1 2 3 4 5);
    tiny_len!(3 2: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    tiny_len!(4 2: 1 2 3 4 5);
    tiny_len!(4 3: 1 2 3 4 5 6 7 8);
    tiny_len!(5 2: 1 2 3 4);
    tiny_len!(5 4: 1 2 3 4 5 6 7 8 9);
    tiny_len!(9 8: 1 7 8 9 15 16 17);
    o
}
/// the variable-length construction at other widths and rates
fn c04_widths() -> Vec<Outcome> {
    let mut o = vec![];
    vlen::<Tiny, 2, 1>(&mut o, 5, "toy parameters", |s| tiny_perm(2, s));
    vlen::<Tiny, 3, 2>(&mut o, 20, "toy parameters", |s| tiny_perm(3, s));
    vlen::<Tiny, 4, 2>(&mut o, 5, "toy parameters", |s| tiny_perm(4, s));
    vlen::<Tiny, 4, 3>(&mut o, 8, "toy parameters", |s| tiny_perm(4, s));
    vlen::<Tiny, 5, 4>(&mut o, 10, "toy parameters", |s| tiny_perm(5, s));
    o
}

pub fn c06() -> Vec<Outcome> {
    let mut o = vec![];
    o.push(prove_opt("any interleaving of calls returns what a fresh hasher returns", 64, 3, &|c: &Ctx| {
        let a = c.vars("a", 3);
        let b = c.vars("b", 4);
        let d = c.var("d");
        let d2 = c.var("e");
        let h = Fr::hasher();
        let mh = Fr::msg_hasher();
        let r2 = h2_ref(a[0], a[1], d);
        let r3 = h2_ref(b[0], b[1], d2);
        let m1 = hmsg_ref(&a, u128f(3 * DOMAIN_SPEC));
        let m2 = hmsg_ref(&b, u128f(17));
        for round in 0..3 {
            c.eq(&format!("h2 first {round}"), Fr::hash_with_domain([a[0], a[1]], d), r2);
            c.eq(&format!("msg first {round}"), Fr::hash_msg(&a, None), m1);
            c.eq(&format!("h2 second {round}"), Fr::hash_with_domain([b[0], b[1]], d2), r3);
            c.eq(&format!("msg second {round}"), Fr::hash_msg(&b, Some(17)), m2);
            c.eq(&format!("clone {round}"), h.clone().hash([a[0], a[1]], d), r2);
            c.eq(&format!("clone other {round}"), h.clone().hash([b[0], b[1]], d2), r3);
            c.eq(&format!("msg clone {round}"), mh.clone().hash_with_cap(&b, 17), m2);
            let mut st = [b[0], b[1], b[2]];
            h.permute(&mut st);
            c.eqs("permute between", &st, &perm_ref(&b[..3]));
            mh.permute(&mut st);
            c.eq(&format!("after permute {round}"), h.clone().hash([a[0], a[1]], d), r2);
            #[allow(deprecated)]
            let dep = <Fr as Hashable>::hash([a[0], a[1]]);
            c.eq("deprecated", dep, h2_ref(a[0], a[1], Fr::ZERO));
            c.eq("constant length", Hash::<Fr, <Fr as Hashable>::SpecType, ConstantLength<3>, 3, 2>::init().hash([a[0], a[1], a[2]]),
                spec::sponge(3, 2, 2, 0, Fr::ZERO, u128f(3 << 64), &spec::pad(&a, 2, Fr::ZERO), |s| perm_ref(s)));
        }
    }));
    o.push(prove_opt("permute leaves its hasher and every other state alone", 64, 3, &|c: &Ctx| {
        let s = c.vars("s", 3);
        let h = Fr::hasher();
        let mut st = [s[0], s[1], s[2]];
        h.permute(&mut st);
        h.permute(&mut st);
        c.eqs("twice", &st, &perm_ref(&perm_ref(&s)));
        c.eq("then hash", h.hash([s[0], s[1]], s[2]), h2_ref(s[0], s[1], s[2]));
    }));
    o.push(concrete("first use and reuse from several threads", |c| {
        let want: Vec<R> = (0..16u64).map(|i| h2_ref(Fr::from(i), Fr::from(i + 1), Fr::from(i * i)).value().unwrap()).collect();
        let wm: Vec<R> = (0..16u64).map(|i| {
            let m: Vec<Fr> = (0..=i).map(Fr::from).collect();
            hmsg_ref(&m, u128f((i as u128 + 1) * DOMAIN_SPEC)).value().unwrap()
        }).collect();
        let ok = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64).map(|t| {
                let (want, wm) = (&want, &wm);
                s.spawn(move || {
                    (0..200u64).all(|k| {
                        let i = (k * 7 + t * 3) % 16;
                        let m: Vec<Fr> = (0..=i).map(Fr::from).collect();
                        Fr::hash_with_domain([Fr::from(i), Fr::from(i + 1)], Fr::from(i * i)).value() == Some(want[i as usize])
                            && Fr::hash_msg(&m, None).value() == Some(wm[i as usize])
                    })
                })
            }).collect();
            hs.into_iter().all(|h| h.join().unwrap_or(false))
        });
        c.holds("all results equal the sequential ones", ok);
    }));
    o
}

/// Specs with generated constants.
#[derive(Clone, Copy, Debug)]
pub struct Gen<const RF_: usize, const RP_: usize, const SEL: usize>;
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF_: usize, const RP_: usize, const SEL: usize>
    Spec<F, T, RATE> for Gen<RF_, RP_, SEL>
{
    fn full_rounds() -> usize {
        RF_
    }
    fn partial_rounds() -> usize {
        RP_
    }
    fn sbox(v: F) -> F {
        v
    }
    fn secure_mds() -> usize {
        SEL
    }
}
fn gen_case<F, const T: usize, const RF_: usize, const RP_: usize, const SEL: usize>(o: &mut Vec<Outcome>, fname: &str)
where
    F: FromUniformBytes<64> + PrimeField<Repr = [u8; 32]> + Ord,
{
    o.push(concrete(&format!("{fname}: width {T}, {RF_}+{RP_} rounds, matrix #{SEL}"), |c| {
        let want = spec::params::<F>(T, RF_, RP_, SEL);
        let got = catch_unwind(AssertUnwindSafe(|| <Gen<RF_, RP_, SEL> as Spec<F, T, 1>>::constants()));
        match (got, want) {
            (Ok((rc, m, _)), Some((wrc, wm))) => {
                c.holds("number of rounds", rc.len() == wrc.len());
                for r in 0..rc.len().min(wrc.len()) {
                    c.holds(&format!("round constants {r}"), rc[r][..] == wrc[r][..]);
                }
                for i in 0..T {
                    c.holds(&format!("mds row {i}"), m[i][..] == wm[i][..]);
                }
            }
            (Err(_), None) => c.holds("rejected on both sides", true),
            (a, b) => c.holds(&format!("same acceptance ({} vs {})", a.is_ok(), b.is_some()), false),
        }
    }));
}
pub fn c07() -> Vec<Outcome> {
    let mut o = vec![];
    gen_case::<Fr, 3, 8, 57, 0>(&mut o, "bn254");
    gen_case::<Fr, 2, 8, 56, 0>(&mut o, "bn254");
    gen_case::<Fr, 4, 8, 56, 1>(&mut o, "bn254");
    gen_case::<Fr, 5, 8, 60, 0>(&mut o, "bn254");
    gen_case::<Fr, 1, 2, 1, 0>(&mut o, "bn254");
    gen_case::<Fr, 3, 8, 57, 3>(&mut o, "bn254");
    gen_case::<Fr, 9, 8, 63, 0>(&mut o, "bn254");
    gen_case::<Fr, 3, 6, 1000, 0>(&mut o, "bn254");
    gen_case::<Fr, 3, 1022, 2, 0>(&mut o, "bn254");
    gen_case::<Fr, 17, 8, 68, 0>(&mut o, "bn254");
    use real::pasta::{Fp as PFp, Fq as PFq};
    gen_case::<PFp, 3, 8, 56, 0>(&mut o, "pallas base");
    gen_case::<PFq, 3, 8, 56, 0>(&mut o, "vesta base");
    gen_case::<PFp, 3, 8, 56, 2>(&mut o, "pallas base");
    gen_case::<PFp, 5, 8, 60, 1>(&mut o, "pallas base");
    gen_case::<real::bn256::Fq, 3, 8, 57, 0>(&mut o, "bn254 base");
    gen_case::<real::secp256k1::Fp, 3, 8, 57, 0>(&mut o, "secp256k1 base");
    gen_case::<real::secp256k1::Fq, 4, 8, 56, 1>(&mut o, "secp256k1 scalar");
    gen_case::<real::secp256r1::Fp, 3, 8, 57, 0>(&mut o, "secp256r1 base");
    o
}

fn mds_sym<const T: usize, const SEL: usize>(o: &mut Vec<Outcome>, budget: i64, inverse: bool) {
    o.push(prove_depth(&format!("generated matrix of width {T}, candidate #{SEL}, any stream of field elements with at most {} coincidences", if thorough() && T <= 2 { 2 } else { 1 }),
        400, if thorough() && T <= 2 { 2 } else { 1 }, 2, &|c: &Ctx| {
        halo2curves::field::set_gf_fresh(true);
        let r = catch_unwind(AssertUnwindSafe(|| <Gen<2, 1, SEL> as Spec<Gf, T, 1>>::constants()));
        halo2curves::field::set_gf_fresh(false);
        // the stream the generator consumed, split into candidates of 2T elements
        let drawn = sym::vars_seen().iter().filter(|v| v.starts_with("u#")).count();
        let u: Vec<Gf> = (0..drawn).map(|k| Gf::var(&format!("u#{k}"))).collect();
        c.holds("whole candidates are drawn", drawn % (2 * T) == 0);
        let mut accepted = vec![];
        for cand in u.chunks(2 * T) {
            let distinct = (0..cand.len()).all(|i| (0..i).all(|j| !cand[i].same(&cand[j])));
            if distinct {
                accepted.push(cand.to_vec());
            }
        }
        c.holds("stops at the requested candidate", accepted.len() == SEL + 1);
        let cand = &accepted[accepted.len() - 1];
        c.holds("the last drawn candidate is the one used",
            cand.iter().zip(&u[drawn - 2 * T..]).all(|(a, b)| a.same(b)));
        match r {
            Err(_) => {
                // the only legitimate refusal: some x_i + y_j = 0
                let zero = (0..T).any(|i| (0..T).any(|j| (cand[i] + cand[T + j]).same(&Gf::ZERO)));
                c.holds("refuses only a candidate with x_i + y_j = 0", zero);
            }
            Ok((_, m, inv)) => {
                for i in 0..T {
                    for j in 0..T {
                        let p = m[i][j] * (cand[i] + cand[T + j]);
                        c.eq(&format!("m[{i}][{j}] * (x+y)"), Fr::of_form(p.form()), Fr::ONE);
                    }
                }
                if inverse {
                    for i in 0..T {
                        for j in 0..T {
                            let mut p = Gf::ZERO;
                            for k in 0..T {
                                p += m[i][k] * inv[k][j];
                            }
                            let d = p - if i == j { Gf::ONE } else { Gf::ZERO };
                            let f = d.form();
                            match sym::with(|a| a.is_zero_expanded(f, budget)) {
                                Some(true) => c.holds("identity", true),
                                _ => c.eq(&format!("(mds * inv)[{i}][{j}]"), Fr::of_form(f), Fr::ZERO),
                            }
                        }
                    }
                }
            }
        }
    }));
}
pub fn c08() -> Vec<Outcome> {
    let mut o = vec![];
    mds_sym::<1, 0>(&mut o, 1_000_000, true);
    mds_sym::<2, 0>(&mut o, 1_000_000, true);
    mds_sym::<2, 1>(&mut o, 1_000_000, true);
    mds_sym::<2, 3>(&mut o, 1_000_000, true);
    mds_sym::<3, 0>(&mut o, 40_000_000, true);
    mds_sym::<3, 1>(&mut o, 1, false);
    mds_sym::<4, 0>(&mut o, 1, false);
    o.push(concrete("generated matrices times their inverses are the identity (enumerated instances)", |c| {
        fn inv<F: FromUniformBytes<64> + Ord, const T: usize, const SEL: usize>(c: &Ctx, n: &str) {
            let (_, m, i) = <Gen<8, 57, SEL> as Spec<F, T, 1>>::constants();
            for a in 0..T {
                for b in 0..T {
                    let mut p = F::ZERO;
                    for k in 0..T {
                        p += m[a][k] * i[k][b];
                    }
                    c.holds(&format!("{n} width {T} #{SEL}: [{a}][{b}]"), p == if a == b { F::ONE } else { F::ZERO });
                }
            }
        }
        inv::<Fr, 1, 0>(c, "bn254");
        inv::<Fr, 2, 0>(c, "bn254");
        inv::<Fr, 3, 0>(c, "bn254");
        inv::<Fr, 3, 5>(c, "bn254");
        inv::<Fr, 4, 2>(c, "bn254");
        inv::<Fr, 5, 0>(c, "bn254");
        inv::<Fr, 6, 1>(c, "bn254");
        inv::<Fr, 9, 0>(c, "bn254");
        inv::<real::pasta::Fp, 3, 0>(c, "pallas");
        inv::<real::pasta::Fp, 7, 1>(c, "pallas");
    }));
    o
}
