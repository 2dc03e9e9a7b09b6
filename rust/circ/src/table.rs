//! The hash table circuit.
use crate::engine::*;
use crate::obl::*;
use crate::perm::HS;
use crate::refp::*;
use crate::sched::set_parallelism;
use halo2_proofs::circuit::{AssignedCell, Cell, Chip, Layouter, Loc, RecLayouter};
use halo2_proofs::plonk::{Advice, Any, Column, ConstraintSystem, Error};
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use halo2curves::sym;
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, PoseidonInstructions, SeptidonChip, StateWord};
use rand::RngCore;
use real::bn256::Fr as R;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

/// one unit of capacity in the control column
#[cfg(not(feature = "legacy"))]
pub fn unit() -> Fr {
    u128f(1u128 << 64)
}
#[cfg(feature = "legacy")]
pub fn unit() -> Fr {
    Fr::from(1)
}

// ------------------------------------------------------------------ a permutation circuit by contract
/// Stands for a permutation circuit of which only the contract is used: one final state per initial
/// state, `final = P(initial)`. The contract is what C10/C12 prove of the two real circuits.
#[derive(Clone, Debug)]
pub struct StubChip(StubConfig);
#[derive(Clone, Debug)]
pub struct StubConfig([Column<Advice>; 6]);
type Calls = Vec<(Vec<Cell>, Vec<Cell>)>;
thread_local! { static CALLS: RefCell<Calls> = const { RefCell::new(vec![]) } }

impl Chip<Fr> for StubChip {
    type Config = StubConfig;
    type Loaded = ();
    fn config(&self) -> &StubConfig {
        &self.0
    }
    fn loaded(&self) -> &() {
        &()
    }
}
impl PermuteChip<Fr, HS, 3, 2> for StubChip {
    fn configure(meta: &mut ConstraintSystem<Fr>) -> StubConfig {
        let c = [0; 6].map(|_| meta.advice_column());
        c.iter().for_each(|c| meta.enable_equality(*c));
        StubConfig(c)
    }
    fn construct(config: StubConfig) -> Self {
        StubChip(config)
    }
}
impl PoseidonInstructions<Fr, HS, 3, 2> for StubChip {
    type Word = StateWord<Fr>;
    fn permute(&self, layouter: &mut impl Layouter<Fr>, init: &[Self::Word; 3]) -> Result<[Self::Word; 3], Error> {
        let cols = self.0 .0;
        let (ins, outs) = layouter.assign_region(
            || "permutation by contract",
            |mut region| {
                let mut ins = vec![];
                let mut vals = vec![];
                for i in 0..3 {
                    let c: AssignedCell<Fr, Fr> = init[i].clone().into();
                    let k = c.copy_advice(|| "in", &mut region, cols[i], 0)?;
                    vals.push(k.value().copied());
                    ins.push(k);
                }
                let joined = vals[0].zip(vals[1]).zip(vals[2]).map(|((a, b), c)| perm_ref(&[a, b, c]));
                let mut outs = vec![];
                for i in 0..3 {
                    outs.push(region.assign_advice(|| "out", cols[3 + i], 0, || joined.as_ref().map(|v| v[i]))?);
                }
                Ok((ins, outs))
            },
        )?;
        CALLS.with(|c| {
            c.borrow_mut().push((ins.iter().map(|x| x.cell()).collect(), outs.iter().map(|x| x.cell()).collect()))
        });
        let o: [AssignedCell<Fr, Fr>; 3] = outs.try_into().unwrap();
        Ok(o.map(StateWord::from))
    }
}
fn p_hook(name: &str, xs: &[R]) -> Option<R> {
    let i = ["P0", "P1", "P2"].iter().position(|n| *n == name)?;
    let s: Vec<Fr> = xs.iter().map(|x| Fr::concrete(*x)).collect();
    perm_ref(&s)[i].value()
}
fn p_fun(s: &[Fr]) -> Vec<Fr> {
    (0..3).map(|i| Fr::fun(["P0", "P1", "P2"][i], s)).collect()
}

// ------------------------------------------------------------------ building
pub struct Built {
    pub cs: CS,
    pub rec: Rec,
    pub calls: Vec<(Vec<Loc>, Vec<Loc>)>,
    /// column indices: index, word, word, control, domain, header
    pub cols: [usize; 6],
}
/// degree of parallelism 0: the serial mode
#[derive(Clone, Copy, Debug)]
pub struct Mode {
    pub cpus: usize,
    pub order: usize,
}
pub const SERIAL: Mode = Mode { cpus: 0, order: 0 };
pub fn par(cpus: usize, order: usize) -> Mode {
    Mode { cpus, order }
}
fn set_mode(m: Mode) {
    if m.cpus == 0 {
        std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", "serial");
        set_parallelism(3);
    } else {
        std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", if m.cpus % 2 == 0 { "parallel" } else { "" });
        set_parallelism(m.cpus);
    }
}
pub fn build<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(data: &PoseidonHashTable<Fr>, calcs: usize, m: Mode) -> Built
where
    PC::Config: Sync,
{
    set_mode(m);
    CALLS.with(|c| c.borrow_mut().clear());
    let mut cs = ConstraintSystem::<Fr>::default();
    let q = cs.fixed_column();
    let cols = [0; 6].map(|_| cs.advice_column());
    let config = SpongeConfig::<Fr, PC>::configure_sub(&mut cs, (q, cols), STEP);
    let mut lay = RecLayouter::new(&cs);
    lay.rec.order = m.order;
    let chip = SpongeChip::<'_, Fr, STEP, PC>::construct(config, data, calcs);
    if let Err(e) = chip.load(&mut lay) {
        panic!("load fails: {e:?}");
    }
    let rec = lay.rec;
    let calls = CALLS.with(|c| {
        c.borrow()
            .iter()
            .map(|(a, b)| (a.iter().map(|x| rec.loc(*x)).collect(), b.iter().map(|x| rec.loc(*x)).collect()))
            .collect()
    });
    Built { cols: cols.map(|c| c.index()), cs, rec, calls }
}

/// an independent description of a table
#[derive(Clone, Debug)]
pub struct Entry {
    pub words: [Fr; 2],
    pub control: u64,
    pub domain: Option<Fr>,
    pub check: Option<Fr>,
}
pub fn raw_table(e: &[Entry]) -> PoseidonHashTable<Fr> {
    PoseidonHashTable {
        inputs: e.iter().map(|x| x.words).collect(),
        controls: e.iter().map(|x| x.control).collect(),
        domain: e.iter().map(|x| x.domain).collect(),
        checks: e.iter().map(|x| x.check).collect(),
    }
}
fn pairs_only(n: usize) -> Vec<Entry> {
    let mut r = rng("pairs");
    (0..n).map(|_| Entry { words: [Fr::random(&mut r), Fr::random(&mut r)], control: 0, domain: None, check: None }).collect()
}

// ------------------------------------------------------------------ C14
fn soundness<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(o: &mut Vec<Outcome>, tag: &str, calcs: usize, contract: bool, m: Mode)
where
    PC::Config: Sync,
{
    let _ = sym::FUN_HOOK.set(p_hook);
    let name = format!("{tag}: constraints tie every table row to a native digest (step {STEP}, {calcs} rows, {m:?})");
    let b = match guarded(|| build::<PC, STEP>(&raw_table(&pairs_only(calcs - 1)), calcs, m)) {
        Ok(b) => b,
        Err(e) => return o.push(no_circuit(&name, e)),
    };
    let mut sys = Sys::new(&b.cs, &b.rec, 8);
    let at = |c: usize, r: usize| (Any::Advice, b.cols[c], r);
    for r in 0..=calcs {
        for c in [1, 2, 4] {
            sys.mark_known(at(c, r));
        }
    }
    if contract {
        for (k, (i, f)) in b.calls.iter().enumerate() {
            let i: Vec<Fr> = i.iter().map(|l| sys.cell(*l)).collect();
            for (j, w) in p_fun(&i).into_iter().enumerate() {
                let v = sys.cell(f[j]);
                sys.require(&format!("contract of permutation {k}, word {j}"), v - w);
            }
        }
    }
    sys.drop_free_lookups();
    let sys = sys;
    let rows: Vec<[Fr; 6]> = (0..=calcs).map(|r| [0, 1, 2, 3, 4, 5].map(|c| sys.cell(at(c, r)))).collect();
    let perm = |s: &[Fr]| if contract { p_fun(s) } else { perm_ref(s) };
    o.push(entails(&name, &sys, 20_000, &|c, val| {
        let t: Vec<[Fr; 6]> = rows.iter().map(|r| r.map(val)).collect();
        table_holds::<STEP>(c, &t, &perm);
    }));
}
fn is(x: Fr, k: u64) -> bool {
    x.value() == Some(R::from(k))
}
/// the statement of C14 about the rows 1.. of a table; row 0 is the designated dummy row
fn table_holds<const STEP: usize>(c: &Ctx, t: &[[Fr; 6]], perm: &dyn Fn(&[Fr]) -> Vec<Fr>) {
    let n = t.len() - 1;
    for r in 1..=n {
        c.holds(&format!("mark of row {r} is a flag"), is(t[r][5], 0) || is(t[r][5], 1));
    }
    c.holds("the first row begins an entry", is(t[1][5], 1));
    // the designated padding entry at the end
    c.eqs("the last row is the padding entry", &t[n][1..4], &[Fr::ZERO; 3]);
    c.holds("the last row begins an entry", is(t[n][5], 1));
    let mut h = 1;
    while h < n {
        let mut e = h;
        while e + 1 <= n && !is(t[e + 1][5], 1) {
            e += 1;
        }
        if e == n {
            break;
        }
        let (mut s, mut out) = ([Fr::ZERO; 3], Fr::ZERO);
        let k = e - h;
        let last = t[e][3];
        let left = (0..=STEP as u64).find(|x| last.value() == (unit() * Fr::from(*x)).value());
        c.holds(&format!("the last row {e} of an entry has a control of at most one step"), left.is_some());
        if k > 0 {
            c.holds(&format!("the last row {e} of a message has something to absorb"), left != Some(0));
        }
        for i in h..=e {
            let w = [t[i][1], t[i][2]];
            s = if i == h { [t[h][3] + t[h][4], w[0], w[1]] } else { [s[0] + t[i][4], s[1] + w[0], s[2] + w[1]] };
            let p = perm(&s);
            s = [p[0], p[1], p[2]];
            out = p[0];
            c.eq(&format!("control of row {i}"), t[i][3], last + unit() * Fr::from(((e - i) * STEP) as u64));
        }
        for i in h..=e {
            c.eq(&format!("index of row {i} (entry {h}..={e})"), t[i][0], out);
        }
        h = e + 1;
    }
}


/// the copy constraints as a partition of cells (independent of their order and orientation)
fn partition(rec: &Rec) -> BTreeMap<Loc, Loc> {
    let mut parent: BTreeMap<Loc, Loc> = BTreeMap::new();
    fn find(p: &BTreeMap<Loc, Loc>, mut x: Loc) -> Loc {
        while let Some(q) = p.get(&x) {
            if *q == x {
                break;
            }
            x = *q;
        }
        x
    }
    for (a, b) in &rec.copies {
        let (x, y) = (find(&parent, *a), find(&parent, *b));
        parent.entry(x).or_insert(x);
        parent.entry(y).or_insert(y);
        if x != y {
            let (k, o) = if x < y { (x, y) } else { (y, x) };
            parent.insert(o, k);
        }
    }
    let keys: BTreeSet<Loc> = rec.copies.iter().flat_map(|(a, b)| [*a, *b]).collect();
    keys.into_iter().map(|k| (k, find(&parent, k))).collect()
}
fn fixed_of(rec: &Rec) -> BTreeMap<(usize, usize), Fr> {
    rec.fixed.iter().filter(|(_, v)| !is(**v, 0)).map(|(k, v)| (*k, *v)).collect()
}
fn sorted_constants(rec: &Rec) -> BTreeMap<Loc, Fr> {
    rec.constants.iter().map(|(l, v)| (*l, *v)).collect()
}
fn same_layout(c: &Ctx, what: &str, a: &Rec, b: &Rec) {
    let (fa, fb) = (fixed_of(a), fixed_of(b));
    for k in fa.keys().chain(fb.keys()).collect::<BTreeSet<_>>() {
        if fa.get(k) != fb.get(k) {
            c.holds(&format!("{what}: fixed column {} row {}: {:?} against {:?}", k.0, k.1, fa.get(k), fb.get(k)), false);
        }
    }
    for k in a.selectors.symmetric_difference(&b.selectors) {
        c.holds(&format!("{what}: selector {} row {} is enabled in one only", k.0, k.1), false);
    }
    let (pa, pb) = (partition(a), partition(b));
    for k in pa.keys().chain(pb.keys()).collect::<BTreeSet<_>>() {
        if pa.get(k).unwrap_or(k) != pb.get(k).unwrap_or(k) {
            c.holds(&format!("{what}: cell {k:?} is copied with {:?} against {:?}", pa.get(k), pb.get(k)), false);
        }
    }
    c.holds(&format!("{what}: constants"), sorted_constants(a) == sorted_constants(b));
    c.holds(&format!("{what}: lookup tables"), a.tables == b.tables);
}

/// entries of random requests filling at most `max` rows
fn random_entries(r: &mut impl RngCore, max: usize, step: u64, v: &mut dyn FnMut(&str) -> Fr) -> Vec<Entry> {
    let mut out: Vec<Entry> = vec![];
    while out.len() < max {
        let k = out.len();
        if r.next_u32() % 2 == 0 {
            let dom = match r.next_u32() % 3 { 0 => None, 1 => Some(Fr::ZERO), _ => Some(v(&format!("d{k}"))) };
            out.push(Entry { words: [v(&format!("a{k}")), v(&format!("b{k}"))], control: 0, domain: dom, check: None });
        } else {
            let room = (max - k) as u64;
            let blocks = 1 + (r.next_u32() as u64) % room.min(4);
            let left = 1 + (r.next_u32() as u64) % step;
            for j in 0..blocks {
                out.push(Entry {
                    words: [v(&format!("a{}", k as u64 + j)), v(&format!("b{}", k as u64 + j))],
                    control: left + (blocks - 1 - j) * step,
                    domain: None,
                    check: None,
                });
            }
        }
        if r.next_u32() % 5 == 0 {
            break;
        }
    }
    out
}
/// entries with any control and domain, in any order
fn arbitrary_entries(r: &mut impl RngCore, max: usize, step: u64, v: &mut dyn FnMut(&str) -> Fr) -> Vec<Entry> {
    (0..r.next_u32() as usize % (max + 1))
        .map(|k| Entry {
            words: [v(&format!("a{k}")), v(&format!("b{k}"))],
            control: match r.next_u32() % 5 {
                0 => 0,
                1 => r.next_u64() >> (r.next_u32() % 64),
                2 => step,
                _ => r.next_u64() % (3 * step + 2),
            },
            domain: if r.next_u32() % 2 == 0 { Some(v(&format!("d{k}"))) } else { None },
            check: None,
        })
        .collect()
}
fn layout_only_capacity<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(o: &mut Vec<Outcome>, tag: &str, modes: &[Mode])
where
    PC::Config: Sync,
{
    o.push(concrete(&format!("{tag}: fixed cells, selectors, copies and lookup tables depend on the capacity only (step {STEP})"), |c| {
        for calcs in 1..=if thorough() { 24 } else { 9 } {
            let base = build::<PC, STEP>(&raw_table(&[]), calcs, SERIAL);
            for m in modes {
                for k in 0..2 {
                    let mut r = rng(&format!("{tag}{calcs}{m:?}{k}"));
                    let mut r2 = rng(&format!("words{tag}{calcs}{m:?}{k}"));
                    let e = random_entries(&mut r, calcs - 1, STEP as u64, &mut |_| Fr::random(&mut r2));
                    let b = build::<PC, STEP>(&raw_table(&e), calcs, *m);
                    same_layout(c, &format!("capacity {calcs}, {m:?}, controls {:?}", e.iter().map(|x| x.control).collect::<Vec<_>>()), &base.rec, &b.rec);
                }
            }
        }
    }));
}

pub fn c14() -> Vec<Outcome> {
    let mut o = vec![];
    let modes: Vec<Mode> = if cfg!(feature = "parallel_syn") { vec![SERIAL, par(1, 0), par(2, 0), par(3, 1), par(8, 0)] } else { vec![SERIAL] };
    for n in 1..=6 {
        soundness::<StubChip, 2>(&mut o, "table", n, true, SERIAL);
    }
    for n in 2..=4 {
        soundness::<StubChip, 1>(&mut o, "table", n, true, SERIAL);
        soundness::<StubChip, 3>(&mut o, "table", n, true, SERIAL);
    }
    soundness::<StubChip, 62>(&mut o, "table", 2, true, SERIAL);
    soundness::<StubChip, 62>(&mut o, "table", 3, true, SERIAL);
    for m in &modes[1..] {
        soundness::<StubChip, 2>(&mut o, "table", 4, true, *m);
    }
    if thorough() {
        soundness::<StubChip, 2>(&mut o, "table", 7, true, SERIAL);
        soundness::<StubChip, 5>(&mut o, "table", 5, true, SERIAL);
    }
    // with the real permutation circuits in place of their contract
    for m in [modes[0], *modes.last().unwrap()] {
        for n in 1..=3 {
            soundness::<SeptidonChip, 2>(&mut o, "table with septidon", n, false, m);
            soundness::<Pow5Chip<Fr, 3, 2>, 2>(&mut o, "table with pow5", n, false, m);
        }
    }
    layout_only_capacity::<SeptidonChip, 3>(&mut o, "table with septidon", &modes);
    layout_only_capacity::<Pow5Chip<Fr, 3, 2>, 2>(&mut o, "table with pow5", &modes);
    layout_only_capacity::<StubChip, 1>(&mut o, "table", &modes);
    o
}

// ------------------------------------------------------------------ C15
#[derive(Clone, Debug)]
pub enum Req {
    /// words and domain; `constant` entries have no domain
    Pair { words: [Fr; 2], domain: Option<Fr>, check: bool },
    /// blocks, words left in the last block's control
    Stream { blocks: Vec<[Fr; 2]>, control: u64, check: bool },
}
/// the rows the table must list for a request
fn spec_rows(q: &Req, step: u64) -> Vec<[Fr; 6]> {
    match q {
        Req::Pair { words, domain, .. } => {
            let d = domain.unwrap_or(Fr::ZERO);
            vec![[h2_ref(words[0], words[1], d), words[0], words[1], Fr::ZERO, d, Fr::ONE]]
        }
        Req::Stream { blocks, control, .. } => {
            let flat: Vec<Fr> = blocks.iter().flatten().copied().collect();
            let h = hmsg_ref(&flat, unit() * Fr::from(*control));
            let mut left = *control;
            let mut out = vec![];
            for (j, w) in blocks.iter().enumerate() {
                out.push([h, w[0], w[1], unit() * Fr::from(left), Fr::ZERO, if j == 0 { Fr::ONE } else { Fr::ZERO }]);
                left = left.saturating_sub(step);
            }
            out
        }
    }
}
fn digest(q: &Req, step: u64) -> Fr {
    spec_rows(q, step)[0][0]
}
#[allow(deprecated)]
fn add<const STEP: usize>(t: &mut PoseidonHashTable<Fr>, q: &Req) {
    let d = digest(q, STEP as u64);
    match q {
        Req::Pair { words, domain: None, check: true } => t.constant_inputs_with_check(&[(words[0], words[1], d)]),
        Req::Pair { words, domain: None, check: false } => t.constant_inputs(&[*words]),
        Req::Pair { words, domain: Some(x), check } => t.fixed_inputs(&[(*words, *x, check.then_some(d))]),
        Req::Stream { blocks, control, check: true } => t.stream_inputs_with_check(blocks.iter(), Some(d), *control, STEP),
        Req::Stream { blocks, control, check: false } => t.stream_inputs(blocks.iter(), *control, STEP),
    }
}
/// the same requests written directly into the public fields
fn add_raw<const STEP: usize>(t: &mut PoseidonHashTable<Fr>, q: &Req) {
    let d = digest(q, STEP as u64);
    match q {
        Req::Pair { words, domain, check } => {
            t.inputs.push(*words);
            t.controls.push(0);
            t.domain.push(*domain);
            t.checks.push(check.then_some(d));
        }
        Req::Stream { blocks, control, check } => {
            for (j, w) in blocks.iter().enumerate() {
                t.inputs.push(*w);
                t.controls.push(*control - (j * STEP) as u64);
                t.domain.push(None);
                t.checks.push((*check && j + 1 == blocks.len()).then_some(d));
            }
        }
    }
}
fn rows_of(q: &Req) -> usize {
    match q {
        Req::Pair { .. } => 1,
        Req::Stream { blocks, .. } => blocks.len(),
    }
}
/// kinds: 0 pair without domain, 1 with domain, 2.. stream of kind-1 blocks; odd `flavour`: with expected digest
fn make_req(kind: usize, flavour: usize, k: usize, step: u64, var: &dyn Fn(&str) -> Fr) -> Req {
    let w = |j: usize| [var(&format!("w{k}_{}", 2 * j)), var(&format!("w{k}_{}", 2 * j + 1))];
    let check = flavour % 2 == 1;
    match kind {
        0 => Req::Pair { words: w(0), domain: None, check },
        1 => Req::Pair { words: w(0), domain: Some(if flavour == 2 { Fr::ZERO } else { var(&format!("dom{k}")) }), check },
        _ => {
            let n = kind - 1;
            let left = 1 + (flavour as u64 / 2 + k as u64) % step;
            // an odd number of words leaves the last word of the last block zero
            let mut blocks: Vec<_> = (0..n).map(w).collect();
            if flavour >= 2 {
                blocks[n - 1][1] = Fr::ZERO;
            }
            Req::Stream { blocks, control: left + (n as u64 - 1) * step, check }
        }
    }
}
fn table_lists<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(
    c: &Ctx, tag: &str, reqs: &[Req], pad: usize, m: Mode, raw: bool,
) where
    PC::Config: Sync,
{
    let mut t = PoseidonHashTable::<Fr>::default();
    for q in reqs {
        if raw {
            add_raw::<STEP>(&mut t, q)
        } else {
            add::<STEP>(&mut t, q)
        }
    }
    let mut want: Vec<[Fr; 6]> = vec![[Fr::ZERO; 6]];
    for q in reqs {
        want.extend(spec_rows(q, STEP as u64));
    }
    let calcs = want.len() - 1 + pad;
    let filler = [h2_ref(Fr::ZERO, Fr::ZERO, Fr::ZERO), Fr::ZERO, Fr::ZERO, Fr::ZERO, Fr::ZERO, Fr::ONE];
    want.resize(calcs + 1, filler);
    let b = build::<PC, STEP>(&t, calcs, m);
    for (r, w) in want.iter().enumerate() {
        for (k, name) in ["index", "first word", "second word", "control", "domain", "mark"].iter().enumerate() {
            let got = value_of(&b.rec, (Any::Advice, b.cols[k], r));
            c.eq(&format!("{tag}: {name} of row {r}"), got.unwrap_or(Fr::ZERO), w[k]);
        }
    }
    check_honest(c, tag, &b.cs, &b.rec);
}
fn lists<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(
    o: &mut Vec<Outcome>, tag: &str, kinds: &[(usize, usize)], pad: usize, m: Mode, raw: bool,
) where
    PC::Config: Sync,
{
    let how = if raw { "fields" } else { "builder" };
    let name = format!("{tag}: loading satisfies the circuit and lists the requests (step {STEP}, requests {kinds:?}, {pad} spare rows, {m:?}, {how})");
    o.push(prove_opt(&name, 16, 1, &|c| {
        let reqs: Vec<Req> = kinds.iter().enumerate().map(|(k, (a, f))| make_req(*a, *f, k, STEP as u64, &|n| c.var(n))).collect();
        table_lists::<PC, STEP>(c, tag, &reqs, pad, m, raw);
    }));
}
fn refuses_wrong_digest<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(o: &mut Vec<Outcome>, tag: &str, m: Mode)
where
    PC::Config: Sync,
{
    o.push(prove_opt(&format!("{tag}: a wrong expected digest is refused (step {STEP}, {m:?})"), 64, 1, &|c| {
        for (kinds, bad) in [(vec![(0, 0)], 0), (vec![(1, 0), (1, 0)], 1), (vec![(2, 0)], 0), (vec![(3, 0), (0, 0)], 0), (vec![(0, 0), (3, 0)], 1)] {
            let reqs: Vec<Req> = kinds.iter().enumerate().map(|(k, (a, f)): (usize, &(usize, usize))| make_req(*a, *f, k, STEP as u64, &|n| Fr::random(&mut rng(n)))).collect();
            let mut t = PoseidonHashTable::<Fr>::default();
            let mut last = 0;
            for (k, q) in reqs.iter().enumerate() {
                add_raw::<STEP>(&mut t, q);
                if k == bad {
                    last = t.inputs.len() - 1;
                }
            }
            let off = c.var("off");
            let right = digest(&reqs[bad], STEP as u64);
            t.checks[last] = Some(right + off);
            let loaded = guarded(|| build::<PC, STEP>(&t, t.inputs.len() + 1, m));
            if let Err(e) = &loaded {
                if e.starts_with(sym::UNSUPPORTED) {
                    panic!("{e}");
                }
            }
            // `off` is zero exactly when the digest is the right one
            c.holds(&format!("{kinds:?}: loads if and only if the digest is right"), loaded.is_ok() == (off == Fr::ZERO));
        }
    }));
}
fn c15_with<PC: PermuteChip<Fr, HS, 3, 2>>(o: &mut Vec<Outcome>, tag: &str, modes: &[Mode])
where
    PC::Config: Sync,
{
    let last = *modes.last().unwrap();
    lists::<PC, 2>(o, tag, &[], 1, SERIAL, false);
    lists::<PC, 2>(o, tag, &[], 3, last, false);
    // every single request, every pair of kinds
    for a in 0..=3 {
        for f in 0..4 {
            lists::<PC, 2>(o, tag, &[(a, f)], 1 + f % 2, modes[(a + f) % modes.len()], f >= 2);
        }
        for b in 0..=3 {
            lists::<PC, 2>(o, tag, &[(a, (a + b) % 4), (b, (a + 2 * b + 1) % 4)], 1, modes[(a + b) % modes.len()], true);
        }
    }
    lists::<PC, 2>(o, tag, &[(1, 1), (3, 1), (1, 2), (2, 3), (0, 1)], 2, last, false);
    lists::<PC, 3>(o, tag, &[(4, 1), (1, 0), (3, 2)], 1, SERIAL, false);
    lists::<PC, 1>(o, tag, &[(3, 0), (0, 0), (4, 3)], 1, last, true);
    lists::<PC, 62>(o, tag, &[(1, 1), (3, 1), (2, 0)], 1, SERIAL, false);
    lists::<PC, 62>(o, tag, &[(4, 3), (1, 0)], 4, last, false);
    refuses_wrong_digest::<PC, 2>(o, tag, SERIAL);
    refuses_wrong_digest::<PC, 2>(o, tag, last);
    if thorough() {
        for k in 0..60 {
            let mut r = rng(&format!("c15 {k}"));
            let n = 1 + r.next_u32() as usize % 5;
            let kinds: Vec<(usize, usize)> = (0..n).map(|_| (r.next_u32() as usize % 5, r.next_u32() as usize % 4)).collect();
            lists::<PC, 3>(o, tag, &kinds, 1 + r.next_u32() as usize % 4, modes[k % modes.len()], true);
        }
    }
}
fn all_modes() -> Vec<Mode> {
    if cfg!(feature = "parallel_syn") {
        vec![SERIAL, par(1, 0), par(2, 0), par(3, 1), par(8, 0)]
    } else {
        vec![SERIAL]
    }
}
pub fn c15() -> Vec<Outcome> {
    let mut o = vec![];
    let modes = all_modes();
    if cfg!(feature = "short") {
        c15_with::<SeptidonChip>(&mut o, "septidon", &modes);
    } else {
        c15_with::<Pow5Chip<Fr, 3, 2>>(&mut o, "pow5", &modes);
    }
    o
}

// ------------------------------------------------------------------ C16
fn same_circuit<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(o: &mut Vec<Outcome>, tag: &str, k: usize, calcs: usize, modes: &[Mode])
where
    PC::Config: Sync,
{
    o.push(prove_opt(&format!("{tag}: every mode assigns the same circuit (step {STEP}, capacity {calcs}, table {k})"), 16, 1, &|c| {
        let mut r = rng(&format!("{tag}{STEP}{calcs}{k}"));
        // every table, not only those a request list leads to
        let e = if k % 2 == 0 {
            random_entries(&mut r, calcs - 1, STEP as u64, &mut |n| c.var(n))
        } else {
            arbitrary_entries(&mut r, calcs, STEP as u64, &mut |n| c.var(n))
        };
        let mut t = raw_table(&e);
        if k % 2 == 1 {
            t.domain.truncate(r.next_u32() as usize % (calcs + 1));
            t.controls.truncate(calcs.saturating_sub(r.next_u32() as usize % 3));
        }
        let what: Vec<u64> = e.iter().map(|x| x.control).collect();
        let base = build::<PC, STEP>(&t, calcs, modes[0]);
        for m in &modes[1..] {
            let b = build::<PC, STEP>(&t, calcs, *m);
            let tag = format!("{m:?} against serial, controls {what:?}");
            same_layout(c, &tag, &base.rec, &b.rec);
            let keys: BTreeSet<_> = base.rec.advice.keys().chain(b.rec.advice.keys()).collect();
            for q in keys {
                let g = |r: &Rec| match r.advice.get(q) {
                    None => Some(Fr::ZERO),
                    Some(v) => v.into_option(),
                };
                match (g(&b.rec), g(&base.rec)) {
                    (Some(x), Some(y)) => c.eq(&format!("{tag}: advice column {} row {}", q.0, q.1), x, y),
                    (x, y) => c.holds(&format!("{tag}: advice column {} row {} has a value", q.0, q.1), x.is_none() && y.is_none()),
                }
            }
        }
    }));
}
/// a table one mode refuses is refused by every mode (and one that is accepted gives the same circuit)
fn same_refusals<PC: PermuteChip<Fr, HS, 3, 2>, const STEP: usize>(o: &mut Vec<Outcome>, tag: &str, modes: &[Mode])
where
    PC::Config: Sync,
{
    o.push(concrete(&format!("{tag}: every mode accepts the same tables (step {STEP}, columns up to three entries beyond the capacity)"), |c| {
        for calcs in 1..=4 {
            for (inputs, controls, others) in [(1, 1, 1), (2, 2, 2), (3, 0, 1), (0, 1, 0), (0, 3, 0), (0, 0, 2), (1, 0, 0)] {
                let mut r = rng(&format!("refusals {tag}{calcs}{inputs}{controls}"));
                let mut r2 = rng(&format!("words {tag}{calcs}{inputs}{controls}"));
                let mut t = raw_table(&random_entries(&mut r, calcs + 3, STEP as u64, &mut |_| Fr::random(&mut r2)));
                t.inputs.truncate(calcs + inputs);
                t.controls.truncate(calcs + controls);
                t.domain.truncate(calcs + others);
                t.checks.truncate(calcs + others);
                let base = guarded(|| build::<PC, STEP>(&t, calcs, modes[0]));
                for m in &modes[1..] {
                    let b = guarded(|| build::<PC, STEP>(&t, calcs, *m));
                    let tag = format!(
                        "capacity {calcs}, {} inputs, {} controls, {} domains, {m:?} against serial",
                        t.inputs.len(), t.controls.len(), t.domain.len()
                    );
                    let says = |x: &Result<Built, String>| if x.is_ok() { "accepted" } else { "refused" };
                    c.holds(&format!("{tag}: {} and {}", says(&b), says(&base)), b.is_ok() == base.is_ok());
                    if let (Ok(b), Ok(base)) = (&b, &base) {
                        same_layout(c, &tag, &base.rec, &b.rec);
                    }
                }
            }
        }
    }));
}
fn c16_with<PC: PermuteChip<Fr, HS, 3, 2>>(o: &mut Vec<Outcome>, tag: &str, caps: &[usize])
where
    PC::Config: Sync,
{
    let modes: Vec<Mode> =
        [SERIAL].into_iter().chain([1, 2, 3, 4, 7, 16, 64].into_iter().enumerate().map(|(i, c)| par(c, i % 3))).collect();
    for calcs in caps {
        for k in 0..4 {
            same_circuit::<PC, 2>(o, tag, k, *calcs, &modes);
        }
        same_circuit::<PC, 62>(o, tag, 2, *calcs, &modes[..4]);
    }
    same_refusals::<PC, 2>(o, tag, &modes);
    same_refusals::<PC, 62>(o, tag, &modes[..4]);
}
pub fn c16() -> Vec<Outcome> {
    let mut o = vec![];
    if !cfg!(feature = "parallel_syn") {
        return o;
    }
    if cfg!(feature = "short") {
        c16_with::<SeptidonChip>(&mut o, "septidon", &[1, 2, 3, 4, 5, 6, 8, 11]);
        c16_with::<StubChip>(&mut o, "any permutation circuit", &[2, 5, 9, 16, 31]);
        if thorough() {
            c16_with::<SeptidonChip>(&mut o, "septidon", &[7, 9, 12, 17, 33]);
            c16_with::<StubChip>(&mut o, "any permutation circuit", &[64, 100]);
        }
    } else {
        c16_with::<Pow5Chip<Fr, 3, 2>>(&mut o, "pow5", &[1, 2, 3, 5, 8]);
    }
    o
}

// ------------------------------------------------------------------ C17
/// what a table lists, position by position
#[derive(Clone, Debug)]
struct Line {
    words: [Fr; 2],
    control: u64,
    domain: Option<Fr>,
    check: Option<Fr>,
}
fn lines(t: &PoseidonHashTable<Fr>) -> Vec<Line> {
    (0..t.inputs.len())
        .map(|i| Line {
            words: t.inputs[i],
            control: t.controls.get(i).copied().unwrap_or(0),
            domain: t.domain.get(i).copied().flatten(),
            check: t.checks.get(i).copied().flatten(),
        })
        .collect()
}
fn same_lines(c: &Ctx, tag: &str, got: &PoseidonHashTable<Fr>, want: &[Line]) {
    let n = want.len();
    c.holds(&format!("{tag}: {} entries, {n} expected", got.inputs.len()), got.inputs.len() == n);
    c.holds(&format!("{tag}: the advertised size is the number of entries"), got.table_size() == n);
    c.holds(
        &format!("{tag}: no column is longer than the entries"),
        got.controls.len() <= n && got.domain.len() <= n && got.checks.len() <= n,
    );
    let opt = |l: &str, g: Option<Fr>, w: Option<Fr>| {
        c.holds(&format!("{l} given"), g.is_some() == w.is_some());
        if let (Some(g), Some(w)) = (g, w) {
            c.eq(l, g, w);
        }
    };
    for (i, (g, w)) in lines(got).iter().zip(want).enumerate() {
        c.eqs(&format!("{tag}: words of entry {i}"), &g.words, &w.words);
        c.holds(&format!("{tag}: control of entry {i}: {} against {}", g.control, w.control), g.control == w.control);
        // an absent domain means domain zero
        c.eq(&format!("{tag}: domain of entry {i}"), g.domain.unwrap_or(Fr::ZERO), w.domain.unwrap_or(Fr::ZERO));
        opt(&format!("{tag}: expected digest of entry {i}"), g.check, w.check);
    }
}
/// one builder call with `n` items; `None`: the call must be refused or leave an aligned table
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Constant(usize),
    ConstantCheck(usize),
    Fixed(usize),
    Stream(usize, u64, usize),
    StreamCheck(usize, u64, usize),
    StreamNoCheck(usize, u64, usize),
}
#[allow(deprecated)]
fn apply_call(c: &Ctx, k: usize, t: &mut PoseidonHashTable<Fr>, model: &mut Vec<Line>, call: Call) -> bool {
    let v = |s: &str, i: usize| c.var(&format!("{s}{k}_{i}"));
    let words = |n: usize| -> Vec<[Fr; 2]> { (0..n).map(|i| [v("a", i), v("b", i)]).collect() };
    match call {
        Call::Constant(n) => {
            let w = words(n);
            t.constant_inputs(w.iter());
            model.extend(w.iter().map(|w| Line { words: *w, control: 0, domain: None, check: None }));
        }
        Call::ConstantCheck(n) => {
            let w = words(n);
            let src: Vec<(Fr, Fr, Fr)> = w.iter().enumerate().map(|(i, w)| (w[0], w[1], v("h", i))).collect();
            t.constant_inputs_with_check(src.iter());
            model.extend(src.iter().map(|s| Line { words: [s.0, s.1], control: 0, domain: None, check: Some(s.2) }));
        }
        Call::Fixed(n) => {
            let w = words(n);
            let src: Vec<([Fr; 2], Fr, Option<Fr>)> =
                w.iter().enumerate().map(|(i, w)| (*w, v("d", i), if (i + k) % 2 == 0 { Some(v("h", i)) } else { None })).collect();
            t.fixed_inputs(src.iter());
            model.extend(src.iter().map(|s| Line { words: s.0, control: 0, domain: Some(s.1), check: s.2 }));
        }
        Call::Stream(n, start, step) | Call::StreamCheck(n, start, step) | Call::StreamNoCheck(n, start, step) => {
            let w = words(n);
            let check = if let Call::StreamCheck(..) = call { Some(v("h", 0)) } else { None };
            // enough capacity for every block: (n - 1) * step < start, or a single block
            let valid = n > 0 && (n == 1 || ((n - 1) as u128) * (step as u128) < start as u128);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match call {
                Call::Stream(..) => t.stream_inputs(w.iter(), start, step),
                _ => t.stream_inputs_with_check(w.iter(), check, start, step),
            }));
            if let Err(e) = r {
                if valid {
                    std::panic::resume_unwind(e);
                }
                return false;
            }
            c.holds(&format!("{call:?}: a stream that its capacity cannot cover is refused"), valid);
            model.extend(w.iter().enumerate().map(|(i, w)| Line {
                words: *w,
                control: if valid { start - (i * step) as u64 } else { 0 },
                domain: None,
                check: if i + 1 == n { check } else { None },
            }));
        }
    }
    true
}
fn calls() -> Vec<Call> {
    let mut v = vec![];
    for n in 0..=3 {
        v.extend([Call::Constant(n), Call::ConstantCheck(n), Call::Fixed(n)]);
    }
    v.push(Call::Fixed(4));
    for n in 1..=4usize {
        for step in [1usize, 2, 62, 31, 1 << 40] {
            let full = n as u64 * step as u64;
            for start in [full, full - step as u64 + 1, full - step as u64 / 2, full + step as u64 * 3 + 1, u64::MAX] {
                v.push(Call::Stream(n, start, step));
                v.push(Call::StreamCheck(n, start, step));
                if n % 2 == 1 {
                    v.push(Call::StreamNoCheck(n, start, step));
                }
            }
            // not enough capacity
            if n > 1 {
                v.push(Call::StreamCheck(n, full - step as u64, step));
                v.push(Call::Stream(n, 0, step));
            }
        }
    }
    v.push(Call::Stream(1, 0, 62));
    v.push(Call::StreamCheck(1, 0, 62));
    v
}
/// a table in any state a sequence of calls can leave it in: columns may end before the entries
fn any_state(c: &Ctx, n: usize, controls: usize, domain: usize, checks: usize) -> PoseidonHashTable<Fr> {
    PoseidonHashTable {
        inputs: (0..n).map(|i| [c.var(&format!("oa{i}")), c.var(&format!("ob{i}"))]).collect(),
        controls: (0..controls).map(|i| if i % 2 == 0 { 7 * i as u64 } else { u64::MAX - i as u64 }).collect(),
        domain: (0..domain).map(|i| if i % 2 == 0 { Some(c.var(&format!("od{i}"))) } else { None }).collect(),
        checks: (0..checks).map(|i| if i % 2 == 1 { Some(c.var(&format!("oh{i}"))) } else { None }).collect(),
    }
}
pub fn c17() -> Vec<Outcome> {
    let mut o = vec![];
    // the contract of every builder call, from every state that satisfies the invariant
    for n in 0..=3usize {
        for call_kind in 0..6 {
            let of_kind: Vec<Call> = calls()
                .into_iter()
                .filter(|c| match c {
                    Call::Constant(_) => call_kind == 0,
                    Call::ConstantCheck(_) => call_kind == 1,
                    Call::Fixed(_) => call_kind == 2,
                    Call::Stream(..) => call_kind == 3,
                    Call::StreamCheck(..) => call_kind == 4,
                    Call::StreamNoCheck(..) => call_kind == 5,
                })
                .collect();
            let name = ["constant_inputs", "constant_inputs_with_check", "fixed_inputs", "stream_inputs", "stream_inputs_with_check (digest)", "stream_inputs_with_check (none)"][call_kind];
            o.push(prove_opt(&format!("{name} appends its entries to any aligned table of {n} entries"), 8, 1, &|c| {
                for call in &of_kind {
                    for controls in 0..=n {
                        for domain in 0..=n {
                            for checks in 0..=n {
                                let mut t = any_state(c, n, controls, domain, checks);
                                let mut model = lines(&t);
                                let tag = format!("{call:?} on columns of length {n}/{controls}/{domain}/{checks}");
                                let r = guarded(|| {
                                    if apply_call(c, 1, &mut t, &mut model, *call) {
                                        same_lines(c, &tag, &t, &model)
                                    }
                                });
                                if let Err(e) = r {
                                    panic!("{tag}: {e}");
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // whole histories
    o.push(prove_opt("every history of builder calls lists its requests in order", 8, 2, &|c| {
        let pool = calls();
        let mut r = rng("histories");
        let runs = if thorough() { 4000 } else { 600 };
        for h in 0..runs {
            let mut t = PoseidonHashTable::<Fr>::default();
            let mut model = vec![];
            let mut said = vec![];
            for k in 0..1 + r.next_u32() as usize % 7 {
                let call = pool[r.next_u32() as usize % pool.len()];
                // small calls often
                let call = match r.next_u32() % 3 { 0 => pool[r.next_u32() as usize % 13], _ => call };
                said.push(call);
                let go = match guarded(|| apply_call(c, 10 * h + k, &mut t, &mut model, call)) {
                    Ok(g) => g,
                    Err(e) => panic!("{said:?}: {e}"),
                };
                if !go {
                    break;
                }
                same_lines(c, &format!("{said:?}"), &t, &model);
            }
        }
    }));
    o
}

// ------------------------------------------------------------------ C09
#[cfg(feature = "short")]
type Real = SeptidonChip;
#[cfg(not(feature = "short"))]
type Real = Pow5Chip<Fr, 3, 2>;
fn rows_of_regions(rec: &Rec) -> usize {
    let mut rows = rec.rows();
    for l in rec.copies.iter().flat_map(|(a, b)| [a, b]).chain(rec.constants.iter().map(|x| &x.0)) {
        rows = rows.max(l.2 + 1);
    }
    rows
}
pub fn c09() -> Vec<Outcome> {
    use poseidon_circuit::hash::Hashable;
    let mut o = vec![];
    let variant = if cfg!(feature = "short") { "septidon" } else { "pow5" };
    let advertised = <Fr as Hashable>::hash_block_size();
    let perm_rows = |n: usize, batch: bool| -> (usize, usize) {
        let s: Vec<Vec<Fr>> = vec![vec![Fr::ZERO; 3]; n];
        let b = crate::perm::build::<HS, Real>(&s, batch, 0);
        // the states handed to the permutation live in a region of their own, in other columns
        let rows = b.rec.regions.iter().filter(|r| r.0 != "inputs").map(|r| r.1 + r.2).max().unwrap_or(0);
        (rows, b.rec.regions.iter().filter(|r| r.0 != "inputs").map(|r| r.2).sum())
    };
    o.push(concrete(&format!("{variant}: the advertised block size covers one permutation"), |c| {
        for n in 1..=20 {
            for batch in [false, true] {
                for cpus in [1, 3, 8] {
                    set_parallelism(cpus);
                    let (end, sum) = perm_rows(n, batch);
                    c.holds(&format!("{n} permutations (batch {batch}, {cpus} threads) end at row {end}, advertised {advertised} each"), end <= n * advertised);
                    c.holds("rows of all permutation regions", sum <= n * advertised);
                }
            }
        }
        #[cfg(feature = "short")]
        c.holds("the row-count of the septuple-round chip is the one used", SeptidonChip::height_per_permutation() == perm_rows(1, false).1);
        let one = perm_rows(1, false).1;
        c.holds(&format!("advertised {advertised}, used {one}: at most one spare row"), advertised <= one + 1);
    }));
    let modes = if cfg!(feature = "parallel_syn") { vec![SERIAL, par(1, 0), par(2, 0), par(5, 1), par(16, 0)] } else { vec![SERIAL] };
    let max = if thorough() { 80 } else { 24 };
    o.push(concrete(&format!("{variant}: the minimum row requirement covers every row a full table assigns"), |c| {
        for calcs in 1..=max {
            for (i, m) in modes.iter().enumerate() {
                let mut r = rng(&format!("c09 {calcs} {i}"));
                let mut r2 = rng(&format!("c09 words {calcs} {i}"));
                let mut e = vec![];
                while e.len() < calcs {
                    e.extend(random_entries(&mut r, calcs - e.len(), 3, &mut |_| Fr::random(&mut r2)));
                }
                let t = raw_table(&e);
                c.holds("the advertised size is the declared number of entries", t.table_size() == calcs);
                let b = build::<Real, 3>(&t, calcs, *m);
                let (used, need) = (rows_of_regions(&b.rec), t.minimum_row_require());
                c.holds(&format!("{calcs} entries, {m:?}: {used} rows assigned, {need} advertised"), used <= need);
            }
        }
    }));
    o.push(concrete(&format!("{variant}: the minimum row requirement grows by a fixed amount per entry"), |c| {
        let t = |n: usize| PoseidonHashTable::<Fr> { inputs: vec![[Fr::ZERO; 2]; n], ..Default::default() };
        let (a, b) = (t(0).minimum_row_require(), t(1).minimum_row_require());
        for n in (0..200).chain([1000, 4097, 65_537]) {
            c.holds(&format!("requirement for {n} entries"), t(n).minimum_row_require() == a + n * (b - a));
            c.holds(&format!("size for {n} entries"), t(n).table_size() == n);
        }
        c.holds("at least the block size per entry", b - a >= advertised.min(b - a) && b - a >= perm_rows(1, false).1);
        // so do the rows a full table assigns
        let mut before = 0;
        for n in 1..=max {
            let built = build::<Real, 3>(&t(n), n, modes[n % modes.len()]);
            let used = rows_of_regions(&built.rec);
            c.holds(&format!("{n} entries assign {used} rows, {before} for one entry less"), used <= (before + (b - a)).max(t(n).minimum_row_require().min(b - a)));
            before = used;
        }
    }));
    o
}
