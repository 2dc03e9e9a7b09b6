//! The in-circuit sponge gadget (C18), and the row-per-round chip at other widths and round counts.
use crate::engine::*;
use crate::obl::*;
use crate::refp::*;
use crate::spec;
use halo2_proofs::circuit::{AssignedCell, Layouter, Loc, RecLayouter, Value};
use halo2_proofs::plonk::ConstraintSystem;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::primitives::{
    Absorbing, ConstantLength, Domain, Hash as NativeHash, P128Pow5T3, P128Pow5T3Compact, Spec,
};
use poseidon_circuit::poseidon::{Hash, PaddedWord, PoseidonInstructions, Pow5Chip, Sponge, StateWord};
use real::bn256::Fr as R;

type Cells = AssignedCell<Fr, Fr>;

/// A small instance with generated parameters: fifth power, `RF` full and `RP` partial rounds.
#[derive(Clone, Copy, Debug)]
pub struct Small<const RF: usize, const RP: usize>;
macro_rules! small {
    ($t:literal, $r:literal) => {
        impl<const RF: usize, const RP: usize> Spec<Fr, $t, $r> for Small<RF, RP> {
            fn full_rounds() -> usize {
                RF
            }
            fn partial_rounds() -> usize {
                RP
            }
            fn sbox(v: Fr) -> Fr {
                pow5(v)
            }
            fn secure_mds() -> usize {
                0
            }
        }
    };
}
small!(2, 1);
small!(3, 2);
small!(4, 3);
small!(5, 4);

pub struct Inst {
    t: usize,
    rf: usize,
    rp: usize,
    rc: Vec<Vec<Fr>>,
    m: Vec<Vec<Fr>>,
}
impl Inst {
    pub fn new(t: usize, rf: usize, rp: usize) -> Self {
        let (rc, m) = spec::params::<R>(t, rf, rp, 0).unwrap();
        let up = |v: Vec<Vec<R>>| v.into_iter().map(|r| r.into_iter().map(Fr::concrete).collect()).collect::<Vec<Vec<Fr>>>();
        Inst { t, rf, rp, rc: up(rc), m: up(m) }
    }
    pub fn permute(&self, s: &[Fr]) -> Vec<Fr> {
        spec::permute(s, &self.rc, &self.m, self.rf, self.rp, pow5)
    }
}
fn chip<S: Spec<Fr, T, RATE>, const T: usize, const RATE: usize>(cs: &mut CS) -> Pow5Chip<Fr, T, RATE> {
    let state = [0; T].map(|_| cs.advice_column());
    let sbox = cs.advice_column();
    let rc_a = [0; T].map(|_| cs.fixed_column());
    let rc_b = [0; T].map(|_| cs.fixed_column());
    cs.enable_constant(rc_b[0]);
    Pow5Chip::construct(Pow5Chip::<Fr, T, RATE>::configure::<S>(cs, state, sbox, rc_a, rc_b))
}
struct Built {
    cs: CS,
    rec: Rec,
    ins: Vec<Loc>,
    outs: Vec<Loc>,
    vals: Vec<Option<Fr>>,
}
fn message(lay: &mut RecLayouter<Fr>, col: halo2_proofs::plonk::Column<halo2_proofs::plonk::Advice>, m: &[Fr]) -> Vec<Cells> {
    lay.assign_region(
        || "message",
        |mut region| {
            m.iter().enumerate().map(|(r, v)| region.assign_advice(|| "m", col, r, || Value::known(*v))).collect::<Result<Vec<_>, _>>()
        },
    )
    .unwrap()
}
fn done(cs: CS, lay: RecLayouter<Fr>, ins: &[Cells], outs: &[Cells]) -> Built {
    let rec = lay.rec;
    Built {
        ins: ins.iter().map(|c| rec.loc(c.cell())).collect(),
        outs: outs.iter().map(|c| rec.loc(c.cell())).collect(),
        vals: outs.iter().map(|c| c.value().copied().into_option()).collect(),
        cs,
        rec,
    }
}
fn gadget<S: Spec<Fr, T, RATE>, const T: usize, const RATE: usize, const L: usize>(m: [Fr; L]) -> Built {
    let mut cs = ConstraintSystem::<Fr>::default();
    let col = cs.advice_column();
    cs.enable_equality(col);
    let chip = chip::<S, T, RATE>(&mut cs);
    let mut lay = RecLayouter::new(&cs);
    let cells = message(&mut lay, col, &m);
    let h = Hash::<Fr, _, S, ConstantLength<L>, T, RATE>::init(chip, lay.namespace(|| "init")).expect("init fails");
    let arr: [Cells; L] = cells.clone().try_into().unwrap();
    let out = h.hash(lay.namespace(|| "hash"), arr).expect("hash fails");
    done(cs, lay, &cells, &[out])
}
/// the sponge itself: absorb, then squeeze `n` words
fn sponge<S: Spec<Fr, T, RATE>, D: Domain<Fr, RATE>, const T: usize, const RATE: usize>(m: &[Fr], pad: &[Fr], n: usize) -> Built {
    let mut cs = ConstraintSystem::<Fr>::default();
    let col = cs.advice_column();
    cs.enable_equality(col);
    let chip = chip::<S, T, RATE>(&mut cs);
    let mut lay = RecLayouter::new(&cs);
    let cells = message(&mut lay, col, m);
    let mut s = Sponge::<Fr, Pow5Chip<Fr, T, RATE>, S, Absorbing<PaddedWord<Fr>, RATE>, D, T, RATE>::new(chip, lay.namespace(|| "new"))
        .expect("new fails");
    for c in &cells {
        s.absorb(lay.namespace(|| "absorb"), PaddedWord::Message(c.clone())).expect("absorb fails");
    }
    for p in pad {
        s.absorb(lay.namespace(|| "absorb"), PaddedWord::Padding(*p)).expect("absorb fails");
    }
    let mut s = s.finish_absorbing(lay.namespace(|| "finish")).expect("finish fails");
    let outs: Vec<Cells> = (0..n).map(|_| s.squeeze(lay.namespace(|| "squeeze")).expect("squeeze fails")).collect();
    done(cs, lay, &cells, &outs)
}
fn permutation<S: Spec<Fr, T, RATE>, const T: usize, const RATE: usize>(m: &[Fr]) -> Built {
    let mut cs = ConstraintSystem::<Fr>::default();
    let col = cs.advice_column();
    cs.enable_equality(col);
    let chip = chip::<S, T, RATE>(&mut cs);
    let mut lay = RecLayouter::new(&cs);
    let cells = message(&mut lay, col, m);
    let mut outs: Vec<Cells> = vec![];
    for st in cells.chunks(T) {
        let w: [StateWord<Fr>; T] = st.iter().cloned().map(StateWord::from).collect::<Vec<_>>().try_into().unwrap();
        let f = <Pow5Chip<Fr, T, RATE> as PoseidonInstructions<Fr, S, T, RATE>>::permute(&chip, &mut lay, &w).expect("permute fails");
        outs.extend(f.into_iter().map(Cells::from));
    }
    done(cs, lay, &cells, &outs)
}
/// outputs of the duplex sponge: capacity in the last word, blocks added at the first words
fn spec_squeeze(i: &Inst, rate: usize, cap: Fr, words: &[Fr], n: usize) -> Vec<Fr> {
    let mut s = vec![Fr::ZERO; i.t];
    s[rate] = cap;
    for b in words.chunks(rate) {
        for (k, w) in b.iter().enumerate() {
            s[k] = s[k] + *w;
        }
        s = i.permute(&s);
    }
    let mut out = vec![];
    while out.len() < n {
        if !out.is_empty() {
            s = i.permute(&s);
        }
        out.extend_from_slice(&s[..rate]);
    }
    out.truncate(n);
    out
}
fn sound(o: &mut Vec<Outcome>, name: &str, make: &dyn Fn(&[Fr]) -> Built, len: usize, want: &dyn Fn(&[Fr]) -> Vec<Fr>) {
    let name = format!("{name}: the constraints determine the digest");
    let mut r = rng(&name);
    let junk: Vec<Fr> = (0..len).map(|_| Fr::random(&mut r)).collect();
    let b = match guarded(|| make(&junk)) {
        Ok(b) => b,
        Err(e) => return o.push(no_circuit(&name, e)),
    };
    let mut sys = Sys::new(&b.cs, &b.rec, 8);
    for l in &b.ins {
        sys.mark_known(*l);
    }
    let ins: Vec<Fr> = b.ins.iter().map(|l| sys.cell(*l)).collect();
    let outs: Vec<Fr> = b.outs.iter().map(|l| sys.cell(*l)).collect();
    o.push(entails(&name, &sys, 64, &|c, val| {
        let i: Vec<Fr> = ins.iter().map(|x| val(*x)).collect();
        let f: Vec<Fr> = outs.iter().map(|x| val(*x)).collect();
        c.eqs("digest", &f, &want(&i));
    }));
}
fn complete(
    o: &mut Vec<Outcome>, name: &str, make: &dyn Fn(&[Fr]) -> Built, len: usize, want: &dyn Fn(&[Fr]) -> Vec<Fr>,
    native: &dyn Fn(&[Fr]) -> Option<Fr>,
) {
    o.push(prove_opt(&format!("{name}: an honest witness is accepted and holds the native digest"), 16, 1, &|c| {
        let m = c.vars("m", len);
        let b = make(&m);
        let w = want(&m);
        for (k, l) in b.outs.iter().enumerate() {
            c.eq(&format!("digest cell {k}"), value_of(&b.rec, *l).expect("the digest cell is assigned"), w[k]);
            c.eq(&format!("digest value {k}"), b.vals[k].expect("the digest value is known"), w[k]);
        }
        if let Some(n) = native(&m) {
            c.eq("native digest", n, w[0]);
        }
        check_honest(c, name, &b.cs, &b.rec);
        // the layout does not depend on the message
        let z = make(&vec![Fr::ZERO; len]);
        c.holds("same layout", z.rec.fixed == b.rec.fixed && z.rec.selectors == b.rec.selectors && z.rec.copies == b.rec.copies);
    }));
}
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Sound,
    Complete,
    Both,
}
fn both(
    o: &mut Vec<Outcome>, name: &str, part: Part, make: &dyn Fn(&[Fr]) -> Built, len: usize, want: &dyn Fn(&[Fr]) -> Vec<Fr>,
    native: &dyn Fn(&[Fr]) -> Option<Fr>,
) {
    if part != Part::Complete {
        sound(o, name, make, len, want);
    }
    if part != Part::Sound {
        complete(o, name, make, len, want, native);
    }
}
fn hash_len<S: Spec<Fr, T, RATE>, const T: usize, const RATE: usize, const L: usize>(
    o: &mut Vec<Outcome>, tag: &str, i: &Inst, native: &dyn Fn([Fr; L]) -> Option<Fr>,
) {
    let want = |m: &[Fr]| {
        spec_squeeze(i, RATE, u128f((L as u128) << 64), &spec::pad(m, RATE, Fr::ZERO), 1)
    };
    both(o, &format!("in-circuit hash of {L} words ({tag})"), Part::Both,
        &|m| gadget::<S, T, RATE, L>(m.to_vec().try_into().unwrap()), L, &want, &|m| native(m.to_vec().try_into().unwrap()));
}
macro_rules! lengths {
    ($o:expr, $s:ty, $t:literal, $r:literal, $tag:expr, $i:expr, $($l:literal)*) => {
        $( hash_len::<$s, $t, $r, $l>($o, $tag, $i, &|_| None); )*
    };
}
macro_rules! lengths3 {
    ($o:expr, $s:ty, $tag:expr, $i:expr, $($l:literal)*) => {
        $( hash_len::<$s, 3, 2, $l>($o, $tag, $i, &|m| Some(NativeHash::<Fr, crate::perm::HS, ConstantLength<$l>, 3, 2>::init().hash(m))); )*
    };
}
pub fn c18() -> Vec<Outcome> {
    let mut v = vec![];
    let o = &mut v;
    let i3 = Inst::new(3, RF, RP);
    lengths3!(o, P128Pow5T3<Fr>, "plain parameters", &i3, 1 2 3 4 5);
    lengths3!(o, P128Pow5T3Compact<Fr>, "optimised parameters", &i3, 1 2 3 4 7);
    // other widths, with few rounds (the gadget does not look inside the permutation)
    let s3 = Inst::new(3, 4, 2);
    lengths!(o, Small<4, 2>, 3, 2, "width 3, rate 2, few rounds", &s3, 1 2 3 4 5 6 8 9);
    let s2 = Inst::new(2, 4, 2);
    lengths!(o, Small<4, 2>, 2, 1, "width 2, rate 1, few rounds", &s2, 1 2 3 4);
    let s4 = Inst::new(4, 4, 2);
    lengths!(o, Small<4, 2>, 4, 3, "width 4, rate 3, few rounds", &s4, 1 2 3 4 5 6 7);
    let s5 = Inst::new(5, 4, 2);
    lengths!(o, Small<4, 2>, 5, 4, "width 5, rate 4, few rounds", &s5, 1 3 4 5 8 9);
    if thorough() {
        lengths3!(o, P128Pow5T3<Fr>, "plain parameters", &i3, 6 7 8 9 10 12);
        lengths!(o, Small<4, 2>, 3, 2, "width 3, rate 2, few rounds", &s3, 7 10 11 12 13 16 17);
    }
    // the sponge below the hash: several outputs, explicit padding
    let cap = u128f(3u128 << 64);
    for (len, pad, n) in [(1, 1, 1), (2, 0, 2), (3, 1, 3), (4, 2, 5), (0, 2, 1)] {
        let pad: Vec<Fr> = (0..pad).map(|k| Fr::from(k as u64 + 3)).collect();
        let p2 = pad.clone();
        both(o, &format!("in-circuit sponge: {len} words, {} padding words, {n} outputs", pad.len()), Part::Both,
            &|m| sponge::<Small<4, 2>, ConstantLength<3>, 3, 2>(m, &pad, n), len,
            &|m| { let mut w = m.to_vec(); w.extend(&p2); spec_squeeze(&s3, 2, cap, &w, n) }, &|_| None);
    }
    v
}
/// the row-per-round permutation at other widths and round counts
pub fn widths(o: &mut Vec<Outcome>, part: Part) {
    fn one<const T: usize, const RATE: usize, const F: usize, const P: usize>(o: &mut Vec<Outcome>, part: Part)
    where
        Small<F, P>: Spec<Fr, T, RATE>,
    {
        let i = Inst::new(T, F, P);
        for n in [1, 2] {
            both(o, &format!("pow5 permutation, width {T}, {F} full and {P} partial rounds, {n} calls"), part,
                &|m| permutation::<Small<F, P>, T, RATE>(m), n * T,
                &|m| m.chunks(T).flat_map(|s| i.permute(s)).collect(), &|_| None);
        }
    }
    one::<2, 1, 2, 1>(o, part);
    one::<2, 1, 4, 4>(o, part);
    one::<3, 2, 2, 1>(o, part);
    one::<3, 2, 4, 2>(o, part);
    one::<3, 2, 8, 56>(o, part);
    one::<3, 2, 8, 55>(o, part);
    one::<4, 3, 4, 3>(o, part);
    one::<4, 3, 2, 6>(o, part);
    one::<5, 4, 4, 3>(o, part);
    one::<5, 4, 6, 4>(o, part);
}
