//! The two permutation circuits.
use crate::engine::*;
use crate::obl::*;
use crate::refp::*;
use crate::sched::set_parallelism;
use halo2_proofs::circuit::{AssignedCell, Cell, Layouter, Loc, RecLayouter, Value};
use halo2_proofs::plonk::{ConstraintSystem, Error};
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use rand::RngCore;
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{Absorbing, ConstantLength, Domain, P128Pow5T3, P128Pow5T3Compact, Spec};
use poseidon_circuit::poseidon::{
    PaddedWord, PermuteChip, PoseidonInstructions, PoseidonSpongeInstructions, Pow5Chip, SeptidonChip,
};

pub type HS = <Fr as Hashable>::SpecType;
type Cells = AssignedCell<Fr, Fr>;

pub struct Built {
    pub cs: CS,
    pub rec: Rec,
    pub ins: Vec<Vec<Loc>>,
    pub outs: Vec<Vec<Loc>>,
    /// values the circuit hands out
    pub outvals: Vec<Vec<Option<Fr>>>,
}
fn locs(rec: &Rec, cells: &[Cells]) -> Vec<Loc> {
    cells.iter().map(|c| rec.loc(c.cell())).collect()
}
fn cell_loc(rec: &Rec, c: Cell) -> Loc {
    rec.loc(c)
}
fn vals(cells: &[Cells]) -> Vec<Option<Fr>> {
    cells.iter().map(|c| c.value().copied().into_option()).collect()
}
fn ok<T>(r: Result<T, Error>) -> T {
    r.unwrap_or_else(|e| panic!("synthesis fails: {e:?}"))
}

/// permute the given states; `batch` uses `permute_batch`; the input cells belong to the harness
pub fn build<S, PC>(states: &[Vec<Fr>], batch: bool, order: usize) -> Built
where
    S: Spec<Fr, 3, 2>,
    PC: PermuteChip<Fr, S, 3, 2>,
{
    let mut cs = ConstraintSystem::<Fr>::default();
    let cols: Vec<_> = (0..3).map(|_| cs.advice_column()).collect();
    for c in &cols {
        cs.enable_equality(*c);
    }
    let config = <PC as PermuteChip<Fr, S, 3, 2>>::configure(&mut cs);
    let chip = <PC as PermuteChip<Fr, S, 3, 2>>::construct(config);
    let mut lay = RecLayouter::new(&cs);
    lay.rec.order = order;
    let inputs: Vec<Vec<Cells>> = ok(lay.assign_region(
        || "inputs",
        |mut region| {
            states
                .iter()
                .enumerate()
                .map(|(r, s)| {
                    (0..3).map(|i| region.assign_advice(|| "in", cols[i], r, || Value::known(s[i]))).collect()
                })
                .collect()
        },
    ));
    let words: Vec<[PC::Word; 3]> =
        inputs.iter().map(|s| [0, 1, 2].map(|i| PC::Word::from(s[i].clone()))).collect();
    let finals: Vec<[PC::Word; 3]> = if batch {
        ok(<PC as PoseidonInstructions<Fr, S, 3, 2>>::permute_batch(&chip, &mut lay, &words))
    } else {
        words.iter().map(|w| ok(<PC as PoseidonInstructions<Fr, S, 3, 2>>::permute(&chip, &mut lay, w))).collect()
    };
    let outs: Vec<Vec<Cells>> =
        finals.into_iter().map(|s| s.into_iter().map(|w| w.into()).collect()).collect();
    let rec = lay.rec;
    Built {
        ins: inputs.iter().map(|x| locs(&rec, x)).collect(),
        outs: outs.iter().map(|x| locs(&rec, x)).collect(),
        outvals: outs.iter().map(|x| vals(x)).collect(),
        cs,
        rec,
    }
}
fn junk(n: usize, tag: &str) -> Vec<Vec<Fr>> {
    let mut r = rng(tag);
    (0..n).map(|_| (0..3).map(|_| Fr::random(&mut r)).collect()).collect()
}

fn soundness<S: Spec<Fr, 3, 2>, PC: PermuteChip<Fr, S, 3, 2>>(o: &mut Vec<Outcome>, tag: &str, n: usize, batch: bool, cpus: usize) {
    set_parallelism(cpus);
    let b = match guarded(|| build::<S, PC>(&junk(n, tag), batch, 0)) {
        Ok(b) => b,
        Err(e) => return o.push(no_circuit(&format!("{tag}: soundness ({n} permutations, batch {batch})"), e)),
    };
    let mut sys = Sys::new(&b.cs, &b.rec, 12);
    for l in b.ins.iter().flatten() {
        sys.mark_known(*l);
    }
    let (ins, outs): (Vec<Vec<Fr>>, Vec<Vec<Fr>>) = (
        b.ins.iter().map(|s| s.iter().map(|l| sys.cell(*l)).collect()).collect(),
        b.outs.iter().map(|s| s.iter().map(|l| sys.cell(*l)).collect()).collect(),
    );
    let what = if batch { "one batch" } else { "separate calls" };
    o.push(entails(&format!("{tag}: constraints determine the final state ({n} permutations, {what}, {cpus} threads)"), &sys, 64, &|c, val| {
        c.holds("one final state per initial state", outs.len() == n);
        for (k, (i, f)) in ins.iter().zip(&outs).enumerate() {
            let i: Vec<Fr> = i.iter().map(|x| val(*x)).collect();
            let f: Vec<Fr> = f.iter().map(|x| val(*x)).collect();
            c.eqs(&format!("final state of permutation {k}"), &f, &perm_ref(&i));
        }
    }));
}
/// the layout must not depend on the witness: fixed cells, selectors and copies are the same
fn shape_independent<S: Spec<Fr, 3, 2>, PC: PermuteChip<Fr, S, 3, 2>>(o: &mut Vec<Outcome>, tag: &str) {
    o.push(prove(&format!("{tag}: fixed cells, selectors and copies do not depend on the witness"), |c| {
        set_parallelism(2);
        for batch in [false, true] {
            let s: Vec<Vec<Fr>> = (0..3).map(|k| c.vars(&format!("s{k}_"), 3)).collect();
            let a = build::<S, PC>(&s, batch, 0);
            let b = build::<S, PC>(&junk(3, tag), batch, 0);
            c.holds("same layout", a.rec.fixed == b.rec.fixed && a.rec.selectors == b.rec.selectors && a.rec.copies == b.rec.copies);
        }
    }));
}
fn honest<S: Spec<Fr, 3, 2>, PC: PermuteChip<Fr, S, 3, 2>>(
    o: &mut Vec<Outcome>, tag: &str, n: usize, batch: bool, cpus: usize, order: usize,
) {
    let what = if batch { "one batch" } else { "separate calls" };
    o.push(prove_opt(
        &format!("{tag}: every honest witness is accepted ({n} permutations, {what}, {cpus} threads, order {order})"),
        16,
        1,
        &|c| {
            set_parallelism(cpus);
            let s: Vec<Vec<Fr>> = (0..n).map(|k| c.vars(&format!("s{k}_"), 3)).collect();
            let b = build::<S, PC>(&s, batch, order);
            c.holds("one final state per initial state", b.outs.len() == n);
            for (k, st) in s.iter().enumerate() {
                let want = perm_ref(st);
                for i in 0..3 {
                    let got = value_of(&b.rec, b.outs[k][i]);
                    c.holds("the final cell is assigned", got.is_some() && b.outvals[k][i].is_some());
                    c.eq(&format!("final cell {i} of permutation {k}"), got.unwrap_or_default(), want[i]);
                    c.eq(&format!("value handed out {i} of permutation {k}"), b.outvals[k][i].unwrap_or_default(), want[i]);
                }
            }
            check_honest(c, tag, &b.cs, &b.rec);
        },
    ));
}

/// rows at which a permutation is placed: every multiple of 8 up to a bound, and rows around powers of two
fn rows() -> Vec<usize> {
    let mut v: Vec<usize> = (0..if thorough() { 4096 } else { 300 }).map(|k| 8 * k).collect();
    v.extend([1, 2, 3, 5, 7, 11, 13, 100, 1001]);
    for k in 4..20 {
        v.extend([(1usize << k) - 8, 1 << k, (1 << k) + 8, 3 << k]);
    }
    let mut r = rng("rows");
    v.extend((0..200).map(|i| 8 * (r.next_u64() as usize % (1 << (5 + i % 14)))));
    v.sort_unstable();
    v.dedup();
    v
}
/// `assign_permutation_with_offset(r)` is `assign_permutation` moved down by `r` rows, nothing more
fn placement(o: &mut Vec<Outcome>) {
    let at = |s: &[Fr; 3], row: Option<usize>| {
        let mut cs = ConstraintSystem::<Fr>::default();
        let chip = SeptidonChip::configure(&mut cs);
        let mut lay = RecLayouter::new(&cs);
        let out = ok(lay.assign_region(
            || "p",
            |mut region| match row {
                None => chip.assign_permutation(&mut region, s.map(Value::known)),
                Some(r) => chip.assign_permutation_with_offset(&mut region, s.map(Value::known), r),
            },
        ));
        (lay.rec, out)
    };
    o.push(prove_opt("septidon: a permutation placed at any row is the one at row 0 moved down", 16, 1, &|c| {
        let s = [c.var("s0"), c.var("s1"), c.var("s2")];
        let (base, out) = at(&s, None);
        for r in rows() {
            let (rec, out2) = at(&s, Some(r));
            let down = |m: &std::collections::BTreeSet<(usize, usize)>| m.iter().map(|k| (k.0, k.1 + r)).collect::<std::collections::BTreeSet<_>>();
            let keys: std::collections::BTreeSet<(usize, usize)> = base.advice.keys().copied().collect();
            let got: std::collections::BTreeSet<(usize, usize)> = rec.advice.keys().copied().collect();
            c.holds(&format!("same advice cells at row {r}"), down(&keys) == got);
            c.holds(&format!("same selectors at row {r}"), down(&base.selectors.iter().copied().collect()) == rec.selectors.iter().copied().collect());
            c.holds(
                &format!("same fixed cells at row {r}"),
                base.fixed.iter().map(|(k, v)| ((k.0, k.1 + r), *v)).collect::<std::collections::BTreeMap<_, _>>()
                    == rec.fixed.iter().map(|(k, v)| (*k, *v)).collect::<std::collections::BTreeMap<_, _>>(),
            );
            c.holds(&format!("no copies at row {r}"), base.copies.len() == rec.copies.len() && base.constants.len() == rec.constants.len());
            for (k, v) in &base.advice {
                if let (Some(a), Some(b)) = (v.into_option(), rec.advice.get(&(k.0, k.1 + r)).and_then(|v| v.into_option())) {
                    c.eq(&format!("advice column {} row {} at row {r}", k.0, k.1), b, a);
                }
            }
            for i in 0..3 {
                c.eq(&format!("state {i} handed out at row {r}"), out2[i].into_option().unwrap_or_default(), out[i].into_option().unwrap_or_default());
            }
        }
    }));
}

pub fn c10() -> Vec<Outcome> {
    let mut o = vec![];
    type C = SeptidonChip;
    placement(&mut o);
    for n in 1..=3 {
        soundness::<HS, C>(&mut o, "septidon", n, false, 1);
    }
    // neighbours in one region: nothing, one before, one after, both
    for n in 1..=4 {
        soundness::<HS, C>(&mut o, "septidon", n, true, 1);
    }
    soundness::<HS, C>(&mut o, "septidon", 5, true, 8);
    if thorough() {
        for n in [6, 9, 13, 17] {
            for cpus in [1, 2, 3, 16] {
                soundness::<HS, C>(&mut o, "septidon", n, true, cpus);
            }
        }
    }
    shape_independent::<HS, C>(&mut o, "septidon");
    o
}
pub fn c11() -> Vec<Outcome> {
    let mut o = vec![];
    placement(&mut o);
    type C = SeptidonChip;
    for n in 1..=3 {
        honest::<HS, C>(&mut o, "septidon", n, false, 1, 0);
    }
    for n in 1..=5 {
        honest::<HS, C>(&mut o, "septidon", n, true, 1, 0);
    }
    for (n, cpus, order) in [(4, 8, 0), (5, 2, 1), (7, 3, 2), (0, 4, 0)] {
        honest::<HS, C>(&mut o, "septidon", n, true, cpus, order);
    }
    honest::<HS, C>(&mut o, "septidon", 20, true, 1, 0);
    if thorough() {
        for n in [6, 8, 9, 11, 16, 33] {
            for cpus in [1, 2, 5, 16] {
                honest::<HS, C>(&mut o, "septidon", n, true, cpus, n % 3);
            }
        }
    }
    o
}
fn pow5_all<S: Spec<Fr, 3, 2>>(o: &mut Vec<Outcome>, tag: &str, sound: bool) {
    type C = Pow5Chip<Fr, 3, 2>;
    for n in 1..=3 {
        if sound {
            soundness::<S, C>(o, tag, n, false, 1);
            if n > 1 {
                soundness::<S, C>(o, tag, n, true, 1);
            }
        } else {
            honest::<S, C>(o, tag, n, false, 1, 0);
            if n > 1 {
                honest::<S, C>(o, tag, n, true, 4, 0);
            }
        }
    }
    if sound {
        shape_independent::<S, C>(o, tag);
    }
}

/// initial state and one or more padding steps of the sponge instructions
struct Padded {
    b: Built,
    /// (state before, input, state after) per step; `Err(v)` is a constant padding word
    steps: Vec<(Vec<Loc>, Vec<Result<Loc, Fr>>, Vec<Loc>)>,
    init: Vec<Loc>,
}
fn build_pad<S: Spec<Fr, 3, 2>, D: Domain<Fr, 2>>(words: &[[Result<Fr, Fr>; 2]]) -> Padded {
    type C = Pow5Chip<Fr, 3, 2>;
    let mut cs = ConstraintSystem::<Fr>::default();
    let col = cs.advice_column();
    cs.enable_equality(col);
    let k = cs.fixed_column();
    cs.enable_constant(k);
    let config = <C as PermuteChip<Fr, S, 3, 2>>::configure(&mut cs);
    let chip = <C as PermuteChip<Fr, S, 3, 2>>::construct(config);
    let mut lay = RecLayouter::new(&cs);
    let init = ok(<C as PoseidonSpongeInstructions<Fr, S, D, 3, 2>>::initial_state(&chip, &mut lay));
    let cells: Vec<[Option<Cells>; 2]> = ok(lay.assign_region(
        || "words",
        |mut region| {
            let mut out = vec![];
            for (i, w) in words.iter().enumerate() {
                let mut row = [None, None];
                for j in 0..2 {
                    if let Ok(v) = w[j] {
                        row[j] = Some(region.assign_advice(|| "w", col, 2 * i + j, || Value::known(v))?);
                    }
                }
                out.push(row);
            }
            Ok(out)
        },
    ));
    let mut state = init.clone();
    let mut raw = vec![];
    for (w, c) in words.iter().zip(&cells) {
        let arr: [Option<PaddedWord<Fr>>; 2] = [0, 1].map(|j| {
            Some(match w[j] {
                Ok(_) => PaddedWord::Message(c[j].clone().unwrap()),
                Err(v) => PaddedWord::Padding(v),
            })
        });
        let absorbing = Absorbing::init_with(arr[0].clone().unwrap());
        let absorbing = {
            let mut a: Absorbing<PaddedWord<Fr>, 2> = absorbing;
            a.0 = arr;
            a
        };
        let next = ok(<C as PoseidonSpongeInstructions<Fr, S, D, 3, 2>>::add_input(&chip, &mut lay, &state, &absorbing));
        raw.push((state.clone(), c.clone(), next.clone()));
        state = next;
    }
    let rec = lay.rec;
    let wl = |s: &[<C as PoseidonInstructions<Fr, S, 3, 2>>::Word; 3]| -> Vec<Loc> {
        s.iter().map(|w| { let c: Cells = w.clone().into(); cell_loc(&rec, c.cell()) }).collect()
    };
    let steps = raw
        .iter()
        .zip(words)
        .map(|((a, c, b), w)| {
            let inp = (0..2)
                .map(|j| match w[j] {
                    Ok(_) => Ok(cell_loc(&rec, c[j].as_ref().unwrap().cell())),
                    Err(v) => Err(v),
                })
                .collect();
            (wl(a), inp, wl(b))
        })
        .collect();
    let init = wl(&init);
    Padded { b: Built { cs, rec, ins: vec![], outs: vec![], outvals: vec![] }, steps, init }
}
fn pad_cases(v: &dyn Fn(&str) -> Fr) -> Vec<(String, Vec<[Result<Fr, Fr>; 2]>)> {
    vec![
        ("two words".into(), vec![[Ok(v("w0")), Ok(v("w1"))]]),
        ("one word, zero padding".into(), vec![[Ok(v("w0")), Err(Fr::ZERO)]]),
        ("one word, padding 7".into(), vec![[Ok(v("w0")), Err(Fr::from(7))]]),
        ("padding only".into(), vec![[Err(Fr::from(3)), Err(Fr::from(9))]]),
        ("two steps".into(), vec![[Ok(v("w0")), Ok(v("w1"))], [Ok(v("w2")), Err(Fr::ZERO)]]),
        ("three steps".into(), vec![[Ok(v("w0")), Ok(v("w1"))], [Err(Fr::from(5)), Ok(v("w2"))], [Ok(v("w3")), Ok(v("w4"))]]),
    ]
}
fn cap_of(l: u64) -> Fr {
    u128f((l as u128) << 64)
}
fn pads<S: Spec<Fr, 3, 2>, const L: usize>(o: &mut Vec<Outcome>, tag: &str, sound: bool) {
    if sound {
        let mut r = rng("pads");
        let x = std::cell::RefCell::new(&mut r);
        let v = |_: &str| Fr::random(&mut **x.borrow_mut());
        for (name, words) in pad_cases(&v) {
            let p = match guarded(|| build_pad::<S, ConstantLength<L>>(&words)) {
                Ok(p) => p,
                Err(e) => {
                    o.push(no_circuit(&format!("{tag}, L={L}: padding soundness ({name})"), e));
                    continue;
                }
            };
            let mut sys = Sys::new(&p.b.cs, &p.b.rec, 6);
            for (_, inp, _) in &p.steps {
                for l in inp.iter().flatten() {
                    sys.mark_known(*l);
                }
            }
            let sys = sys;
            let cell = |l: &Loc| sys.cell(*l);
            o.push(entails(&format!("{tag}, L={L}: constraints determine initial state and padding step ({name})"), &sys, 64, &|c, val| {
                let get = |l: &Loc| val(cell(l));
                let ini: Vec<Fr> = p.init.iter().map(get).collect();
                c.eqs("initial state", &ini, &[Fr::ZERO, Fr::ZERO, cap_of(L as u64)]);
                for (k, (a, i, b)) in p.steps.iter().enumerate() {
                    let a: Vec<Fr> = a.iter().map(get).collect();
                    let b: Vec<Fr> = b.iter().map(get).collect();
                    let i: Vec<Fr> = i.iter().map(|x| match x { Ok(l) => get(l), Err(v) => *v }).collect();
                    c.eqs(&format!("state after step {k}"), &b, &[a[0] + i[0], a[1] + i[1], a[2]]);
                }
            }));
        }
    } else {
        let names: Vec<String> = pad_cases(&|_| Fr::ZERO).into_iter().map(|x| x.0).collect();
        for (ix, name) in names.iter().enumerate() {
            o.push(prove_opt(&format!("{tag}, L={L}: honest initial state and padding step are accepted ({name})"), 16, 2, &|c| {
                let words = pad_cases(&|n| c.var(n)).remove(ix).1;
                let p = build_pad::<S, ConstantLength<L>>(&words);
                let mut state = vec![Fr::ZERO, Fr::ZERO, cap_of(L as u64)];
                let get = |l: &Loc| value_of(&p.b.rec, *l).expect("assigned");
                c.eqs("initial state", &p.init.iter().map(get).collect::<Vec<_>>(), &state);
                for (k, (a, i, b)) in p.steps.iter().enumerate() {
                    c.eqs(&format!("state before step {k}"), &a.iter().map(get).collect::<Vec<_>>(), &state);
                    for j in 0..2 {
                        let w = match words[k][j] { Ok(v) => v, Err(v) => v };
                        if let Ok(l) = &i[j] {
                            c.eq("message cell", get(l), w);
                        }
                        state[j] = state[j] + w;
                    }
                    c.eqs(&format!("state after step {k}"), &b.iter().map(get).collect::<Vec<_>>(), &state);
                }
                check_honest(c, tag, &p.b.cs, &p.b.rec);
            }));
        }
    }
}
pub fn c12() -> Vec<Outcome> {
    let mut o = vec![];
    pow5_all::<P128Pow5T3<Fr>>(&mut o, "pow5, plain parameters", true);
    pow5_all::<P128Pow5T3Compact<Fr>>(&mut o, "pow5, optimised parameters", true);
    pads::<P128Pow5T3<Fr>, 2>(&mut o, "pow5", true);
    pads::<P128Pow5T3Compact<Fr>, 5>(&mut o, "pow5 compact", true);
    crate::sponge::widths(&mut o, crate::sponge::Part::Sound);
    o
}
pub fn c13() -> Vec<Outcome> {
    let mut o = vec![];
    pow5_all::<P128Pow5T3<Fr>>(&mut o, "pow5, plain parameters", false);
    pow5_all::<P128Pow5T3Compact<Fr>>(&mut o, "pow5, optimised parameters", false);
    pads::<P128Pow5T3<Fr>, 2>(&mut o, "pow5", false);
    pads::<P128Pow5T3Compact<Fr>, 5>(&mut o, "pow5 compact", false);
    crate::sponge::widths(&mut o, crate::sponge::Part::Complete);
    o
}
