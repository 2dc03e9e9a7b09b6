//! The circuit a synthesis produced, as a system of polynomial constraints over its cells:
//! checking an assignment (completeness) and deciding consequences of the constraints (soundness).
use crate::obl::*;
use halo2_proofs::circuit::{Loc, Recorder};
use halo2_proofs::plonk::{Any, ConstraintSystem, Expression};
use halo2curves::bn256::Fr;
use halo2curves::sym::{self, AtomId, FormId};
use rand::RngCore;
use real::bn256::Fr as R;
use real::ff::Field as _;
use std::cell::RefCell;
use halo2curves::sym::HashMap;
use std::collections::{BTreeMap, BTreeSet};

pub type CS = ConstraintSystem<Fr>;
pub type Rec = Recorder<Fr>;

fn zero() -> Fr {
    Fr::concrete(R::ZERO)
}
fn one() -> Fr {
    Fr::concrete(R::ONE)
}

/// evaluate an expression at a row
pub fn eval_at(e: &Expression<Fr>, row: usize, n: usize, rec: &Rec, advice: &dyn Fn(usize, usize) -> Fr) -> Fr {
    let at = |rot: i32| (row as i64 + rot as i64).rem_euclid(n as i64) as usize;
    e.eval::<Fr>(
        &|c| c,
        &|s| if rec.selectors.contains(&(s.index(), row)) { one() } else { zero() },
        &|c, r| rec.fixed.get(&(c.index(), at(r.0))).copied().unwrap_or(zero()),
        &|c, r| advice(c.index(), at(r.0)),
        &|a| zero() - a,
        &|a, b| a + b,
        &|a, b| a * b,
    )
}

pub fn value_of(rec: &Rec, l: Loc) -> Option<Fr> {
    match l.0 {
        Any::Advice => rec.advice.get(&(l.1, l.2)).and_then(|v| v.into_option()),
        Any::Fixed => Some(rec.fixed.get(&(l.1, l.2)).copied().unwrap_or(zero())),
        Any::Instance => None,
    }
}

fn same(a: Fr, b: Fr) -> bool {
    if a.same(&b) {
        return true;
    }
    let d = a - b;
    if let Some(v) = d.value() {
        return bool::from(v.is_zero());
    }
    let f = d.form();
    // a non-zero value at a random point settles it; otherwise expand
    use rand::SeedableRng;
    let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(seed());
    sym::with(|a| {
        let mut need = vec![];
        a.vars_of(f, &mut need, &mut vec![]);
        let env: HashMap<String, R> = need.into_iter().map(|n| (n, R::random(&mut r))).collect();
        bool::from(a.eval(f, &env, &mut HashMap::default()).is_zero()) && a.is_zero_expanded(f, 400_000) == Some(true)
    })
}

/// Everything the recorded assignment must satisfy: gates on every row (unused rows hold zero;
/// `blind` further rows hold arbitrary values), copies, constants and lookups.
pub fn check_honest(c: &Ctx, tag: &str, cs: &CS, rec: &Rec) {
    let used = rec.rows();
    for gap in [0usize, 9] {
        let usable = used + gap;
        let blind = 6;
        let n = usable + blind;
        let fill: RefCell<BTreeMap<(usize, usize), Fr>> = RefCell::new(BTreeMap::new());
        let adv = |col: usize, row: usize| -> Fr {
            if let Some(v) = rec.advice.get(&(col, row)) {
                return match v.into_option() {
                    Some(v) => v,
                    None => panic!("advice cell without a value"),
                };
            }
            if row >= usable {
                return *fill
                    .borrow_mut()
                    .entry((col, row))
                    .or_insert_with(|| Fr::var(&format!("blind{col}@{row}")));
            }
            zero()
        };
        for g in &cs.gates {
            for (k, p) in g.polys.iter().enumerate() {
                for row in 0..n {
                    let v = eval_at(p, row, n, rec, &adv);
                    if v.value().map(|x| bool::from(x.is_zero())) != Some(true) {
                        c.eq(&format!("{tag}: gate `{}` #{k} at row {row} of {used}(+{gap})", g.name), v, zero());
                    } else {
                        *c.checks.borrow_mut() += 1;
                    }
                }
            }
        }
        for l in &cs.lookups {
            assert_eq!(l.pairs.len(), 1, "SYM-UNSUPPORTED: lookup with several columns");
            for (e, t) in &l.pairs {
                let table: Vec<Fr> =
                    rec.tables.iter().filter(|(k, _)| k.0 == t.inner().index()).map(|(_, v)| *v).collect();
                // unassigned table rows repeat the first value
                for row in 0..usable {
                    let v = eval_at(e, row, n, rec, &adv);
                    c.holds(
                        &format!("{tag}: lookup `{}` at row {row}: {}", l.name, v.show()),
                        table.iter().any(|x| same(*x, v)),
                    );
                }
            }
        }
    }
    for (a, b) in &rec.copies {
        match (value_of(rec, *a), value_of(rec, *b)) {
            (Some(x), Some(y)) => c.eq(&format!("{tag}: copy {a:?} = {b:?}"), x, y),
            _ => c.holds(&format!("{tag}: copied cells {a:?}, {b:?} are assigned"), false),
        }
    }
    for (a, v) in &rec.constants {
        match value_of(rec, *a) {
            Some(x) => c.eq(&format!("{tag}: constant cell {a:?}"), x, *v),
            None => c.holds(&format!("{tag}: constant cell {a:?} is assigned"), false),
        }
    }
}

// ---------------------------------------------------------------- constraint system of all assignments
pub struct Sys {
    parent: HashMap<Loc, Loc>,
    fixed: HashMap<Loc, Fr>,
    pub forms: Vec<(String, FormId)>,
    pub lookups: Vec<(String, FormId, Vec<R>)>,
    pub nonzero: Vec<FormId>,
    /// variables that are inputs of the statement; eliminated last
    pub known: BTreeSet<AtomId>,
    /// free cells set to zero in counterexamples (they satisfy a dropped lookup)
    pub zeroed: BTreeSet<AtomId>,
    pub dropped: Vec<(String, FormId, Vec<R>)>,
}
fn name(l: Loc) -> String {
    format!("{}{}@{:04}", if l.0 == Any::Advice { "a" } else { "f" }, l.1, l.2)
}
impl Sys {
    fn find(&self, l: Loc) -> Loc {
        let mut x = l;
        while let Some(p) = self.parent.get(&x) {
            if *p == x {
                break;
            }
            x = *p;
        }
        x
    }
    pub fn cell(&self, l: Loc) -> Fr {
        let r = self.find(l);
        match self.fixed.get(&r) {
            Some(v) => *v,
            None => Fr::of_form(sym::with(|a| {
                let v = a.raw_var(&name(r));
                a.atom_form(v)
            })),
        }
    }
    pub fn mark_known(&mut self, l: Loc) {
        let f = self.cell(l);
        if f.is_symbolic() {
            let ids = sym::with(|a| a.vars_ids(f.form()));
            self.known.extend(ids.iter().copied());
        }
    }
    /// leave out lookups that some cell occurring nowhere else can satisfy on its own (weaker
    /// hypotheses; counterexamples give such cells the value zero)
    pub fn drop_free_lookups(&mut self) {
        loop {
            let hit = sym::with(|a| {
                let mut count: HashMap<AtomId, usize> = HashMap::default();
                for f in self.forms.iter().map(|x| x.1).chain(self.lookups.iter().map(|x| x.1)) {
                    for v in a.vars_ids(f).iter() {
                        *count.entry(*v).or_insert(0) += 1;
                    }
                }
                for (i, (_, f, t)) in self.lookups.iter().enumerate() {
                    if !t.iter().any(|x| bool::from(x.is_zero())) {
                        continue;
                    }
                    for g in a.split_product(*f) {
                        let vs: Vec<AtomId> = a.vars_ids(g).iter().copied().collect();
                        if vs.len() == 1 && count[&vs[0]] == 1 && a.atom_form(vs[0]) == g && !self.known.contains(&vs[0]) {
                            return Some((i, vs[0]));
                        }
                    }
                }
                None
            });
            match hit {
                Some((i, v)) => {
                    let l = self.lookups.remove(i);
                    self.dropped.push(l);
                    self.zeroed.insert(v);
                }
                None => return,
            }
        }
    }
    pub fn require(&mut self, label: &str, f: Fr) {
        self.forms.push((label.into(), f.form()));
    }
    /// all constraints of the recorded circuit with `extra` unused rows behind it; the values the
    /// synthesis assigned to advice cells are ignored
    pub fn new(cs: &CS, rec: &Rec, extra: usize) -> Sys {
        let mut s = Sys {
            parent: HashMap::default(), fixed: HashMap::default(), forms: vec![], lookups: vec![], nonzero: vec![], known: BTreeSet::new(), zeroed: BTreeSet::new(), dropped: vec![],
        };
        for (a, b) in &rec.copies {
            let (x, y) = (s.find(*a), s.find(*b));
            if x != y {
                // the smaller location represents the class
                let (k, o) = if x < y { (x, y) } else { (y, x) };
                s.parent.insert(o, k);
            }
        }
        let mut pins: Vec<(Loc, Fr)> = rec.constants.clone();
        for (a, b) in &rec.copies {
            for l in [a, b] {
                if l.0 == Any::Fixed {
                    pins.push((*l, rec.fixed.get(&(l.1, l.2)).copied().unwrap_or(zero())));
                }
            }
        }
        for (l, v) in pins {
            let r = s.find(l);
            match s.fixed.get(&r) {
                None => {
                    s.fixed.insert(r, v);
                }
                Some(w) => {
                    if !same(*w, v) {
                        let d = *w - v;
                        s.require(&format!("two constants for {l:?}"), d);
                    }
                }
            }
        }
        let n = rec.rows() + extra;
        let adv = |col: usize, row: usize| s.cell((Any::Advice, col, row));
        let mut forms = vec![];
        for g in &cs.gates {
            for (k, p) in g.polys.iter().enumerate() {
                for row in 0..n {
                    let v = eval_at(p, row, n, rec, &adv);
                    if v.value().map(|x| bool::from(x.is_zero())) != Some(true) {
                        forms.push((format!("gate `{}` #{k} at row {row}", g.name), v.form()));
                    }
                }
            }
        }
        let mut lookups = vec![];
        for l in &cs.lookups {
            assert_eq!(l.pairs.len(), 1, "SYM-UNSUPPORTED: lookup with several columns");
            for (e, t) in &l.pairs {
                let mut table: Vec<R> = vec![];
                for (k, v) in &rec.tables {
                    let v = v.value().expect("table values are constants");
                    if k.0 == t.inner().index() && !table.contains(&v) {
                        table.push(v);
                    }
                }
                for row in 0..n {
                    let v = eval_at(e, row, n, rec, &adv);
                    if v.value().map(|x| table.contains(&x)) != Some(true) {
                        lookups.push((format!("lookup `{}` at row {row}", l.name), v.form(), table.clone()));
                    }
                }
            }
        }
        s.forms.extend(forms);
        s.lookups = lookups;
        s
    }
}

#[derive(Clone)]
struct St {
    subst: HashMap<AtomId, FormId>,
    pend: Vec<FormId>,
    looks: Vec<(FormId, usize)>,
    nonzero: Vec<FormId>,
}
enum Step {
    Closed,
    Leaf,
    Go,
    Branch(Vec<St>),
}

fn apply(st: &mut St, by: &HashMap<AtomId, FormId>) {
    sym::with(|a| {
        let mut memo = HashMap::default();
        for k in 0..st.nonzero.len() {
            st.nonzero[k] = a.subst_map(st.nonzero[k], by, &mut memo);
            if a.as_const(st.nonzero[k]).map(|c| bool::from(c.is_zero())) == Some(true) {
                // this case is contradictory; nothing else needs to be substituted
                let bad = a.constant(R::ONE);
                st.pend = vec![bad];
                return;
            }
        }
        let mut memo = HashMap::default();
        for f in st.pend.iter_mut() {
            *f = a.subst_map(*f, by, &mut memo);
        }
        for (f, _) in st.looks.iter_mut() {
            *f = a.subst_map(*f, by, &mut memo);
        }
        for (_, f) in st.subst.iter_mut() {
            *f = a.subst_map(*f, by, &mut memo);
        }
        for (v, f) in by {
            st.subst.insert(*v, *f);
        }
    })
}
/// true: contradiction
fn tidy(st: &mut St, tables: &[Vec<R>]) -> bool {
    let mut seen = BTreeSet::new();
    let mut bad = false;
    sym::with(|a| {
        st.pend.retain(|f| match a.as_const(*f) {
            Some(c) => {
                bad |= !bool::from(c.is_zero());
                false
            }
            None => seen.insert(*f),
        });
        st.looks.retain(|(f, t)| match a.as_const(*f) {
            Some(c) => {
                bad |= !tables[*t].contains(&c);
                false
            }
            None => true,
        });
        for f in &st.nonzero {
            if let Some(c) = a.as_const(*f) {
                bad |= bool::from(c.is_zero());
            }
        }
        st.nonzero.retain(|f| a.as_const(*f).is_none());
    });
    bad
}
fn is_nonzero(a: &mut sym::Arena, st: &St, f: FormId) -> bool {
    if let Some(c) = a.as_const(f) {
        return !bool::from(c.is_zero());
    }
    let fs = a.split_product(f);
    fs.iter().all(|g| st.nonzero.contains(g) || {
        let l = a.split_product(*g);
        l.len() == 1 && st.nonzero.iter().any(|h| proportional(a, *h, l[0]))
    })
}
fn proportional(a: &mut sym::Arena, f: FormId, g: FormId) -> bool {
    if f == g {
        return true;
    }
    // same up to a constant factor
    let (x, y) = (a.monic(f), a.monic(g));
    x == y
}
fn step(st: &mut St, tables: &[Vec<R>], known: &BTreeSet<AtomId>) -> Step {
    if tidy(st, tables) {
        return Step::Closed;
    }
    // 1. products over a single variable (booleanity)
    let mut best: Option<(usize, usize)> = None;
    for (i, f) in st.pend.iter().enumerate() {
        let n = sym::with(|a| a.vars_ids(*f).len());
        if n == 1 && best.map(|b| n < b.0).unwrap_or(true) && sym::with(|a| a.linear_const(*f).is_empty()) {
            best = Some((n, i));
        }
    }
    let product = |st: &mut St, i: usize| -> Option<Step> {
        let f = st.pend[i];
        let facs = sym::with(|a| a.split_product(f));
        if facs.len() == 1 && facs[0] == f {
            return None;
        }
        // known non-zero factors drop out
        let facs: Vec<FormId> = facs.into_iter().filter(|g| !sym::with(|a| is_nonzero(a, st, *g))).collect();
        if facs.is_empty() {
            return Some(Step::Closed);
        }
        let mut out = vec![];
        for (k, g) in facs.iter().enumerate() {
            let mut s2 = st.clone();
            s2.pend[i] = *g;
            s2.nonzero.extend(facs[..k].iter().copied());
            out.push(s2);
        }
        Some(if out.len() == 1 {
            *st = out.pop().unwrap();
            Step::Go
        } else {
            Step::Branch(out)
        })
    };
    if let Some((_, i)) = best {
        if let Some(s) = product(st, i) {
            return s;
        }
    }
    // 2. eliminate a variable that occurs linearly with a constant coefficient
    let mut best: Option<(usize, usize, AtomId, R)> = None;
    for (i, f) in st.pend.iter().enumerate() {
        let (unknown, cand) = sym::with(|a| {
            let vs = a.vars_ids(*f);
            let unknown = vs.iter().filter(|v| !known.contains(v)).count();
            let score = if unknown == 0 { 1000 } else { unknown };
            if best.as_ref().map(|b| score >= b.0).unwrap_or(false) {
                return (score, None);
            }
            let lin = a.linear_const(*f);
            let mut c: Vec<(bool, String, AtomId, R)> =
                lin.iter().map(|(v, c)| (!known.contains(v), row_key(&a.var_name(*v)), *v, *c)).collect();
            c.sort_by(|x, y| (x.0, &x.1).cmp(&(y.0, &y.1)));
            (score, c.pop())
        });
        if let Some((_, _, v, c)) = cand {
            best = Some((unknown, i, v, c));
        }
    }
    if let Some((_, i, v, c)) = best {
        let f = st.pend.remove(i);
        let e = sym::with(|a| a.solve_for(f, v, c));
        let by: HashMap<AtomId, FormId> = [(v, e)].into_iter().collect();
        apply(st, &by);
        return Step::Go;
    }
    // 3. products
    let mut order: Vec<(usize, usize)> =
        st.pend.iter().enumerate().map(|(i, f)| (sym::with(|a| a.vars_ids(*f).len()), i)).collect();
    order.sort();
    for (_, i) in order.iter() {
        if let Some(s) = product(st, *i) {
            return s;
        }
    }
    // 4. lookups
    if let Some((f, t)) = st.looks.first().copied() {
        let mut out = vec![];
        for v in &tables[t] {
            let mut s2 = st.clone();
            s2.looks.remove(0);
            s2.pend.push(sym::with(|a| {
                let k = a.constant(*v);
                a.sub(f, k)
            }));
            out.push(s2);
        }
        return Step::Branch(out);
    }
    // 5. linear with a symbolic coefficient
    for (_, i) in order.iter() {
        let f = st.pend[*i];
        let cand = sym::with(|a| {
            let mut l = a.linear_sym(f);
            l.sort_by_key(|(v, c, r)| (known.contains(v), !is_nonzero(a, st, *c), a.vars_ids(*c).len() + a.vars_ids(*r).len()));
            l.into_iter().next()
        });
        if let Some((v, coef, rest)) = cand {
            let nz = sym::with(|a| is_nonzero(a, st, coef));
            let mut s2 = st.clone();
            s2.pend.remove(*i);
            if !nz {
                s2.nonzero.push(coef);
            }
            let e = sym::with(|a| a.neg_div(rest, coef));
            apply(&mut s2, &[(v, e)].into_iter().collect());
            if nz {
                *st = s2;
                return Step::Go;
            }
            let mut s1 = st.clone();
            s1.pend.remove(*i);
            s1.pend.push(coef);
            s1.pend.push(rest);
            return Step::Branch(vec![s1, s2]);
        }
    }
    Step::Leaf
}
/// order variables by row, then column
fn row_key(n: &str) -> String {
    match n.split_once('@') {
        Some((a, b)) => format!("{b}{a}"),
        None => n.to_string(),
    }
}

pub type Concl<'a> = &'a dyn Fn(&Ctx, &dyn Fn(Fr) -> Fr);

/// Prove that every assignment satisfying `sys` satisfies the conclusion, by exhaustive case
/// analysis; or exhibit a satisfying assignment that violates it.
pub fn entails(oname: &str, sys: &Sys, max_leaves: usize, concl: Concl) -> Outcome {
    static SLOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    let limit = if thorough() { 600 } else if SLOW.load(SeqCst) > 0 { 10 } else { 60 };
    let mut out = entails_(oname, sys, max_leaves, concl, limit, false);
    if out.status == "undecided" || out.status == "failed" {
        if out.status == "undecided" {
            SLOW.fetch_add(1, SeqCst);
        }
        // the same analysis with the statement's inputs fixed to random constants
        if !sys.known.is_empty() && !concrete_only() && SLOW.load(SeqCst) < 4 {
            for _ in 0..2 {
                let o2 = entails_(oname, sys, max_leaves, concl, 15, true);
                if o2.status == "refuted" {
                    return o2;
                }
            }
            if out.status == "undecided" {
                out.detail += "; two analyses with fixed random inputs found no violation";
            }
        }
    }
    out
}
fn entails_(oname: &str, sys: &Sys, max_leaves: usize, concl: Concl, limit: u64, fix_inputs: bool) -> Outcome {
    let fixed_run = fix_inputs as u64 * 77;
    let mut out = Outcome {
        name: oname.into(), status: "proved".into(), paths: 0, checks: 0, concrete_runs: 0, notes: vec![],
        detail: String::new(), cex: vec![],
    };
    start(oname);
    sym::begin_path(&BTreeMap::new());
    let mut rng = rng(oname);
    let mut tables: Vec<Vec<R>> = vec![];
    let mut looks = vec![];
    for (_, f, t) in &sys.lookups {
        let ix = tables.iter().position(|x| x == t).unwrap_or_else(|| {
            tables.push(t.clone());
            tables.len() - 1
        });
        looks.push((*f, ix));
    }
    let t0 = std::time::Instant::now();
    let mut st = St { subst: HashMap::default(), pend: sys.forms.iter().map(|x| x.1).collect(), looks, nonzero: sys.nonzero.clone() };
    if fix_inputs {
        use rand::SeedableRng;
        let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(rng.next_u64() ^ fixed_run);
        let by: HashMap<AtomId, FormId> =
            sys.known.iter().map(|v| (*v, sym::with(|a| { let c = R::random(&mut r); a.constant(c) }))).collect();
        apply(&mut st, &by);
    }
    let mut todo = vec![st];
    let (mut closed, mut open) = (0usize, 0usize);
    while let Some(mut st) = todo.pop() {
        if concrete_only() || open + closed > max_leaves {
            out.status = "undecided".into();
            out.detail = "case analysis abandoned".into();
            break;
        }
        let leaf = loop {
            if t0.elapsed().as_secs() > limit {
                out.status = "undecided".into();
                out.detail = format!("case analysis not finished after {limit} s");
                return out;
            }
            match step(&mut st, &tables, &sys.known) {
                Step::Closed => {
                    closed += 1;
                    break false;
                }
                Step::Leaf => break true,
                Step::Go => {}
                Step::Branch(v) => {
                    todo.extend(v.into_iter().rev());
                    break false;
                }
            }
        };
        if !leaf {
            continue;
        }
        open += 1;
        out.paths += 1;
        let val = |f: Fr| -> Fr {
            if !f.is_symbolic() {
                return f;
            }
            Fr::of_form(sym::with(|a| a.subst_map(f.form(), &st.subst, &mut HashMap::default())))
        };
        let ctx = Ctx::make(false);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| concl(&ctx, &val)));
        out.checks += *ctx.checks.borrow();
        let mut fails: Vec<Fail> = ctx.fails.borrow().clone();
        fails.retain(|f| match f {
            Fail::Differ { got, want, .. } => !same(*got, *want),
            _ => true,
        });
        if let Err(e) = r {
            fails.push(Fail::Panic(panic_text(&e)));
        }
        if fails.is_empty() {
            continue;
        }
        // look for a satisfying assignment on this leaf
        match witness(sys, &st, &tables, concl, &mut rng, &mut out.concrete_runs) {
            Some((t, env)) => {
                set_cex(&mut out, t, env);
                return out;
            }
            None => {
                out.status = "failed".into();
                out.detail = format!("not entailed by the constraints: {}", show_fail(&fails[0]));
            }
        }
    }
    out.notes.push(format!("{open} satisfiable cases, {closed} contradictory cases"));
    if out.status == "proved" && open == 0 {
        out.status = "failed".into();
        out.detail = "the constraints are contradictory: no assignment satisfies them".into();
    }
    out
}

fn witness(
    sys: &Sys, st: &St, tables: &[Vec<R>], concl: Concl, rng: &mut impl RngCore, runs: &mut usize,
) -> Option<(String, Vec<(String, R)>)> {
    let _ = tables;
    // variables of the original system
    let mut all: BTreeSet<AtomId> = BTreeSet::new();
    sym::with(|a| {
        for (_, f) in &sys.forms {
            all.extend(a.vars_ids(*f).iter().copied());
        }
        for (_, f, _) in sys.lookups.iter().chain(&sys.dropped) {
            all.extend(a.vars_ids(*f).iter().copied());
        }
        all.extend(sys.known.iter().copied());
    });
    for attempt in 0..60 {
        *runs += 1;
        let mut free: BTreeSet<AtomId> = all.iter().copied().filter(|v| !st.subst.contains_key(v)).collect();
        sym::with(|a| {
            for f in st.subst.values().chain(st.pend.iter()) {
                free.extend(a.vars_ids(*f).iter().copied());
            }
        });
        let mut env: HashMap<String, R> = HashMap::default();
        for v in &free {
            let x = if sys.zeroed.contains(v) { R::ZERO } else { match (attempt % 3, rng.next_u32() % 4) {
                (0, _) => R::random(&mut *rng),
                (1, 0) | (2, _) => R::from((rng.next_u32() % 3) as u64),
                _ => R::random(&mut *rng),
            }};
            env.insert(sym::with(|a| a.var_name(*v)), x);
        }
        let ok = sym::with(|a| {
            let mut memo = HashMap::default();
            let vals: Vec<(String, R)> =
                st.subst.iter().map(|(v, f)| (a.var_name(*v), a.eval(*f, &env, &mut memo))).collect();
            for (k, v) in vals {
                env.insert(k, v);
            }
            let mut memo = HashMap::default();
            sys.forms.iter().all(|(_, f)| bool::from(a.eval(*f, &env, &mut memo).is_zero()))
                && sys.lookups.iter().chain(&sys.dropped).all(|(_, f, t)| t.contains(&a.eval(*f, &env, &mut memo)))
                && sys.nonzero.iter().all(|f| !bool::from(a.eval(*f, &env, &mut memo).is_zero()))
        });
        if !ok {
            continue;
        }
        let env2 = RefCell::new(env.clone());
        let val = |f: Fr| -> Fr {
            if !f.is_symbolic() {
                return f;
            }
            let v = sym::with(|a| {
                // cells no constraint mentions are arbitrary
                let names: Vec<String> = a.vars_ids(f.form()).iter().map(|v| a.var_name(*v)).collect();
                for n in names {
                    env2.borrow_mut().entry(n).or_insert(R::from(5));
                }
                a.eval(f.form(), &env2.borrow(), &mut HashMap::default())
            });
            Fr::concrete(v)
        };
        let ctx = Ctx::make(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| concl(&ctx, &val)));
        let fails = ctx.fails.borrow().clone();
        let t = match (fails.first(), r) {
            (Some(f), _) => show_fail(f),
            (None, Err(e)) => panic_text(&e),
            _ => continue,
        };
        return Some((format!("a satisfying assignment violates it: {t}"), env2.into_inner().into_iter().collect()));
    }
    None
}

/// an obligation that could not be stated because the circuit cannot be synthesised
pub fn no_circuit(name: &str, why: String) -> Outcome {
    Outcome {
        name: name.into(), status: "undecided".into(), paths: 0, checks: 0, concrete_runs: 1, notes: vec![],
        detail: format!("no circuit to analyse: {why}"), cex: vec![],
    }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
