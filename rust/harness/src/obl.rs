//! Obligations over the compiled code: each is a closure executed on symbolic field elements over
//! every feasible path (splits on field equality), plus concrete replays.
use halo2curves::bn256::Fr;
use halo2curves::sym::{self, FormId};
use rand::{RngCore, SeedableRng};
use real::bn256::Fr as R;
use real::ff::Field;
use std::cell::RefCell;
use halo2curves::sym::HashMap;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn rng(tag: &str) -> rand_chacha::ChaCha8Rng {
    let mut s = seed();
    for b in tag.bytes() {
        s = s.wrapping_mul(0x100000001b3) ^ b as u64;
    }
    rand_chacha::ChaCha8Rng::seed_from_u64(s)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// normal forms differ: values, and the difference form
    Differ { label: String, got: Fr, want: Fr },
    False { label: String },
    Panic(String),
    Unsupported(String),
}

pub struct Ctx {
    pub fails: RefCell<Vec<Fail>>,
    pub checks: RefCell<usize>,
    concrete: bool,
}
impl Ctx {
    pub fn make(concrete: bool) -> Self {
        Ctx { fails: RefCell::new(vec![]), checks: RefCell::new(0), concrete }
    }
    pub fn is_concrete(&self) -> bool {
        self.concrete
    }
    pub fn var(&self, n: &str) -> Fr {
        Fr::var(n)
    }
    pub fn vars(&self, n: &str, k: usize) -> Vec<Fr> {
        (0..k).map(|i| Fr::var(&format!("{n}{i}"))).collect()
    }
    pub fn eq(&self, label: &str, got: Fr, want: Fr) {
        *self.checks.borrow_mut() += 1;
        if !got.same(&want) {
            self.fails.borrow_mut().push(Fail::Differ { label: label.into(), got, want });
        }
    }
    pub fn eqs(&self, label: &str, got: &[Fr], want: &[Fr]) {
        self.holds(&format!("{label}: length"), got.len() == want.len());
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            self.eq(&format!("{label}[{i}]"), *g, *w);
        }
    }
    pub fn holds(&self, label: &str, b: bool) {
        *self.checks.borrow_mut() += 1;
        if !b {
            self.fails.borrow_mut().push(Fail::False { label: label.into() });
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
pub struct Outcome {
    pub name: String,
    /// proved | refuted | undecided | unsupported | passed (concrete only)
    pub status: String,
    pub paths: usize,
    pub checks: usize,
    pub concrete_runs: usize,
    pub notes: Vec<String>,
    pub detail: String,
    pub cex: Vec<(String, String)>,
}
impl Outcome {
    pub fn emit(&self) {
        let cex: Vec<String> = self.cex.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
        let notes: Vec<String> = self.notes.iter().map(|x| jstr(x)).collect();
        println!(
            "OBL {{\"name\":{},\"status\":{},\"paths\":{},\"checks\":{},\"concrete_runs\":{},\"notes\":[{}],\"detail\":{},\"cex\":{{{}}}}}",
            jstr(&self.name), jstr(&self.status), self.paths, self.checks, self.concrete_runs,
            notes.join(","), jstr(&self.detail), cex.join(",")
        );
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

fn run_once(f: &dyn Fn(&Ctx), concrete: bool) -> (Vec<Fail>, usize) {
    let ctx = Ctx::make(concrete);
    let r = catch_unwind(AssertUnwindSafe(|| f(&ctx)));
    let mut fails = ctx.fails.into_inner();
    if let Err(e) = r {
        let t = panic_text(&e);
        if t.starts_with(sym::UNSUPPORTED) {
            fails.push(Fail::Unsupported(t))
        } else {
            fails.push(Fail::Panic(t))
        }
    }
    (fails, ctx.checks.into_inner())
}

fn rand_generic(r: &mut impl RngCore) -> R {
    R::random(r)
}

type Subst = BTreeMap<String, FormId>;

pub fn show_fail(f: &Fail) -> String {
    match f {
        Fail::Differ { label, got, want } => format!("{label}: got {got:?}, expected {want:?}"),
        Fail::False { label } => format!("{label}: does not hold"),
        Fail::Panic(t) => format!("panicked: {t}"),
        Fail::Unsupported(t) => t.clone(),
    }
}

/// Run `f` with every variable bound to a constant (the given ones, the rest pseudo-random).
/// Returns the failure text and the bindings if a check fails.
fn concrete_run(f: &dyn Fn(&Ctx), env: &HashMap<String, R>, seed: u64) -> Option<(String, Vec<(String, R)>)> {
    let s: Subst = env.iter().map(|(k, v)| (k.clone(), sym::with(|a| a.constant(*v)))).collect();
    sym::begin_concrete(&s, seed);
    let (fails, _) = run_once(f, true);
    fails.iter().find(|x| !matches!(x, Fail::Unsupported(_))).map(|x| (show_fail(x), sym::bindings()))
}
/// no symbolic exploration at all (the driver's fallback)
pub fn concrete_only() -> bool {
    std::env::var("VERIF_CONCRETE").is_ok()
}
pub fn set_cex(out: &mut Outcome, t: String, env: Vec<(String, R)>) {
    out.status = "refuted".into();
    out.detail = t;
    let mut c: Vec<_> = env.iter().map(|(k, v)| (k.clone(), sym::hex(v))).collect();
    c.sort();
    out.cex = c;
}
pub fn start(name: &str) {
    println!("START {}", jstr(name));
}

/// Prove (or refute) `f` for all values of the variables it creates.
pub fn prove(name: &str, f: impl Fn(&Ctx)) -> Outcome {
    prove_opt(name, 64, if thorough() { 24 } else { 6 }, &f)
}

pub fn prove_opt(name: &str, max_paths: usize, samples: usize, f: &dyn Fn(&Ctx)) -> Outcome {
    prove_depth(name, max_paths, 3, samples, f)
}
/// as `prove_opt`, following at most `max_depth` nested equalities (the rest is noted as assumed)
pub fn prove_depth(name: &str, max_paths: usize, max_depth: usize, samples: usize, f: &dyn Fn(&Ctx)) -> Outcome {
    let mut out = Outcome {
        name: name.into(),
        status: "proved".into(),
        paths: 0,
        checks: 0,
        concrete_runs: 0,
        notes: vec![],
        detail: String::new(),
        cex: vec![],
    };
    start(name);
    let mut rng = rng(name);
    if concrete_only() {
        out.status = "undecided".into();
        for _ in 0..40 {
            out.concrete_runs += 1;
            if let Some((t, env)) = concrete_run(f, &HashMap::default(), rng.next_u64()) {
                set_cex(&mut out, t, env);
                break;
            }
        }
        return out;
    }
    let mut todo: Vec<(Subst, usize)> = vec![(Subst::new(), 0)];
    let mut seen: Vec<Subst> = vec![];
    let mut any_vars = false;
    while let Some((s, depth)) = todo.pop() {
        if seen.contains(&s) {
            continue;
        }
        seen.push(s.clone());
        if out.paths >= max_paths {
            out.notes.push(format!("path limit {max_paths} reached"));
            out.status = "undecided".into();
            break;
        }
        out.paths += 1;
        sym::begin_path(&s);
        let (fails, checks) = run_once(f, false);
        let assumed = sym::assumed();
        let seen_vars = sym::vars_seen();
        any_vars |= !seen_vars.is_empty();
        out.checks += checks;
        // try to refute each failure concretely, on assignments that follow this path
        for fl in &fails {
            match fl {
                Fail::Unsupported(t) => {
                    out.status = "unsupported".into();
                    out.detail = t.clone();
                    continue;
                }
                Fail::Differ { label, got, want } => {
                    let d = *got - *want;
                    let form = d.form();
                    // a non-zero value at a random point settles it; otherwise expand
                    let at_random = sym::with(|a| {
                        let mut need = vec![];
                        a.vars_of(form, &mut need, &mut vec![]);
                        let env: HashMap<String, R> = need.into_iter().map(|n| (n, rand_generic(&mut rng))).collect();
                        a.eval(form, &env, &mut HashMap::default())
                    });
                    if bool::from(at_random.is_zero()) && sym::with(|a| a.is_zero_expanded(form, 400_000)) == Some(true) {
                        continue; // equal after expansion
                    }
                    let _ = label;
                }
                _ => {}
            }
            let mut hit = None;
            for k in 0..40 {
                // even attempts: generic values; odd attempts: corner values drawn on first use
                let mut env: HashMap<String, R> = if k % 2 == 0 {
                    seen_vars.iter().map(|v| (v.clone(), rand_generic(&mut rng))).collect()
                } else {
                    HashMap::default()
                };
                // follow the substitutions of the path
                let free = env.clone();
                for (v, form) in &s {
                    let mut e2 = free.clone();
                    let mut need = vec![];
                    sym::with(|a| a.vars_of(*form, &mut need, &mut vec![]));
                    for n in need {
                        e2.entry(n).or_insert_with(|| rand_generic(&mut rng));
                    }
                    let val = sym::with(|a| a.eval(*form, &e2, &mut HashMap::default()));
                    env.insert(v.clone(), val);
                }
                out.concrete_runs += 1;
                hit = concrete_run(f, &env, rng.next_u64());
                if hit.is_some() {
                    break;
                }
            }
            match hit {
                Some((t, env)) => {
                    set_cex(&mut out, t, env);
                    return out;
                }
                None => {
                    if out.status == "proved" {
                        out.status = "undecided".into();
                        out.detail = show_fail(fl);
                    }
                }
            }
        }
        for a in assumed {
            if depth < max_depth {
                if let Some(s2) = sym::extend_subst(&s, a) {
                    todo.push((s2, depth + 1));
                    continue;
                }
            }
            out.notes.push(format!("assumes {} != 0", sym::with(|x| x.show(a))));
        }
    }
    // concrete guard runs (also the bounded stand-in when the symbolic run was not conclusive)
    let n = if out.status == "proved" { samples } else { samples.max(40) };
    for _ in 0..n {
        out.concrete_runs += 1;
        if let Some((t, env)) = concrete_run(f, &HashMap::default(), rng.next_u64()) {
            set_cex(&mut out, t, env);
            break;
        }
        if !any_vars {
            break;
        }
    }
    out.notes.dedup();
    out
}

/// A purely concrete check (no variables): passes or is refuted.
pub fn concrete(name: &str, f: impl Fn(&Ctx)) -> Outcome {
    start(name);
    sym::begin_path(&Subst::new());
    let (fails, checks) = run_once(&f, true);
    let st = match fails.first() {
        None => "passed",
        Some(Fail::Unsupported(_)) => "unsupported",
        _ => "refuted",
    };
    Outcome {
        name: name.into(),
        status: st.into(),
        paths: 1,
        checks,
        concrete_runs: 1,
        notes: vec![],
        detail: fails.first().map(show_fail).unwrap_or_default(),
        cex: vec![],
    }
}
