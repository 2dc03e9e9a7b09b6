//! Symbolic terms over the BN254 scalar field, in a hash-consed normal form.
//!
//! A form is a finite sum of `coefficient * monomial`; a monomial is a product of integer powers of
//! atoms; an atom is a variable, an uninterpreted function application, or a *base*: a monic form
//! with at least two terms that was multiplied or inverted as a whole (products of sums are not
//! distributed).  Two expressions with the same normal form denote the same rational function, so
//! equality of normal forms proves equality for every value of the variables (outside the zeros of
//! the denominators, which are recorded as assumptions on the path).
use real::bn256::Fr as R;
use real::ff::{Field, PrimeField};
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
use std::sync::Mutex;

pub type FormId = u32;
type MonoId = u32;
pub type AtomId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String),
    Fun(String, Vec<FormId>),
    Base(FormId),
}

fn key(r: &R) -> [u8; 32] {
    use real::serde::SerdeObject;
    r.to_raw_bytes().try_into().unwrap()
}

#[derive(Default)]
pub struct Arena {
    atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, AtomId>,
    monos: Vec<Vec<(AtomId, i32)>>,
    mono_ix: HashMap<Vec<(AtomId, i32)>, MonoId>,
    /// terms sorted by monomial id, no zero coefficient
    forms: Vec<Vec<(MonoId, R)>>,
    form_ix: HashMap<Vec<(MonoId, [u8; 32])>, FormId>,
    // ---- path state ----
    subst: BTreeMap<String, FormId>,
    assumed_nonzero: Vec<FormId>,
    pub cmp_used: usize,
    vars_seen: Vec<String>,
    fresh: usize,
    fac_memo: HashMap<FormId, (R, AtomId)>,
    mul_memo: HashMap<(FormId, FormId), FormId>,
    vars_memo: HashMap<FormId, std::sync::Arc<Vec<AtomId>>>,
    /// when set, an unbound variable is bound to a constant drawn from this generator state
    auto: Option<u64>,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// a pseudo-random constant, often a corner value
fn draw(s: &mut u64) -> R {
    match splitmix(s) % 12 {
        0 => R::ZERO,
        1 => R::ONE,
        2 => -R::ONE,
        3 => R::from(splitmix(s) % 5),
        4 => R::from(splitmix(s)),
        5 => R::from_u128(1u128 << (splitmix(s) % 128)),
        _ => {
            let k = R::from(splitmix(s));
            let mut x = R::ZERO;
            for _ in 0..4 {
                x = x * R::from_u128(1u128 << 64) + R::from(splitmix(s));
            }
            x + k.square()
        }
    }
}

impl Arena {
    fn init(&mut self) {
        if self.forms.is_empty() {
            self.forms.push(vec![]); // 0: reserved, never used as a symbolic node
            self.forms.push(vec![]); // 1: the zero form
            self.form_ix.insert(vec![], 1);
            self.monos.push(vec![]);
            self.mono_ix.insert(vec![], 0);
        }
    }
    fn atom(&mut self, a: Atom) -> AtomId {
        if let Some(i) = self.atom_ix.get(&a) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, i);
        i
    }
    fn mono(&mut self, m: Vec<(AtomId, i32)>) -> MonoId {
        if let Some(i) = self.mono_ix.get(&m) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }
    fn intern(&mut self, f: Vec<(MonoId, R)>) -> FormId {
        let k: Vec<(MonoId, [u8; 32])> = f.iter().map(|(m, c)| (*m, key(c))).collect();
        if let Some(i) = self.form_ix.get(&k) {
            return *i;
        }
        let i = self.forms.len() as u32;
        self.forms.push(f);
        self.form_ix.insert(k, i);
        i
    }
    pub fn constant(&mut self, c: R) -> FormId {
        self.init();
        if bool::from(c.is_zero()) {
            return 1;
        }
        self.intern(vec![(0, c)])
    }
    pub fn as_const(&self, f: FormId) -> Option<R> {
        let t = &self.forms[f as usize];
        match t.len() {
            0 => Some(R::ZERO),
            1 if t[0].0 == 0 => Some(t[0].1),
            _ => None,
        }
    }
    fn lin(&mut self, a: FormId, ca: R, b: FormId, cb: R) -> FormId {
        let (x, y) = (&self.forms[a as usize], &self.forms[b as usize]);
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                out.push((x[i].0, x[i].1 * ca));
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                out.push((y[j].0, y[j].1 * cb));
                j += 1;
            } else {
                out.push((x[i].0, x[i].1 * ca + y[j].1 * cb));
                i += 1;
                j += 1;
            }
        }
        out.retain(|(_, c)| !bool::from(c.is_zero()));
        self.intern(out)
    }
    pub fn add(&mut self, a: FormId, b: FormId) -> FormId {
        self.lin(a, R::ONE, b, R::ONE)
    }
    pub fn sub(&mut self, a: FormId, b: FormId) -> FormId {
        self.lin(a, R::ONE, b, -R::ONE)
    }
    pub fn scale(&mut self, a: FormId, c: R) -> FormId {
        if bool::from(c.is_zero()) {
            return 1;
        }
        if c == R::ONE {
            return a;
        }
        let out = self.forms[a as usize].iter().map(|(m, x)| (*m, *x * c)).collect();
        self.intern(out)
    }
    /// a form as coefficient * product of powers
    fn factors(&mut self, a: FormId) -> (R, Vec<(AtomId, i32)>) {
        let t = &self.forms[a as usize];
        if t.is_empty() {
            return (R::ZERO, vec![]);
        }
        if t.len() == 1 {
            let (m, c) = t[0];
            return (c, self.monos[m as usize].clone());
        }
        if let Some((c, at)) = self.fac_memo.get(&a) {
            return (*c, vec![(*at, 1)]);
        }
        let lc = t[t.len() - 1].1;
        let g = if lc == R::ONE { a } else { self.scale(a, lc.invert().unwrap()) };
        let at = self.atom(Atom::Base(g));
        self.fac_memo.insert(a, (lc, at));
        (lc, vec![(at, 1)])
    }
    fn product(&mut self, c: R, mut m: Vec<(AtomId, i32)>) -> FormId {
        if bool::from(c.is_zero()) {
            return 1;
        }
        m.sort();
        let mut out: Vec<(AtomId, i32)> = vec![];
        for (a, e) in m {
            match out.last_mut() {
                Some(l) if l.0 == a => l.1 += e,
                _ => out.push((a, e)),
            }
        }
        out.retain(|x| x.1 != 0);
        if out.len() == 1 && out[0].1 == 1 {
            if let Atom::Base(g) = self.atoms[out[0].0 as usize] {
                return self.scale(g, c);
            }
        }
        let id = self.mono(out);
        self.intern(vec![(id, c)])
    }
    pub fn mul(&mut self, a: FormId, b: FormId) -> FormId {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        if let Some(r) = self.mul_memo.get(&(a, b)) {
            return *r;
        }
        let (ca, mut ma) = self.factors(a);
        let (cb, mb) = self.factors(b);
        ma.extend(mb);
        let r = self.product(ca * cb, ma);
        self.mul_memo.insert((a, b), r);
        r
    }
    pub fn pow(&mut self, a: FormId, e: i32) -> FormId {
        if e == 0 {
            return self.constant(R::ONE);
        }
        let (c, mut m) = self.factors(a);
        for x in m.iter_mut() {
            x.1 *= e;
        }
        let c = if e > 0 {
            c.pow_vartime([e as u64])
        } else {
            c.invert().unwrap().pow_vartime([(-e) as u64])
        };
        self.product(c, m)
    }
    /// variable, or what the current path substitutes for it
    pub fn var(&mut self, name: &str) -> FormId {
        self.init();
        if !self.vars_seen.iter().any(|v| v == name) {
            self.vars_seen.push(name.to_string());
        }
        if let Some(f) = self.subst.get(name) {
            return *f;
        }
        if let Some(mut st) = self.auto {
            let c = draw(&mut st);
            self.auto = Some(st);
            let f = self.constant(c);
            self.subst.insert(name.to_string(), f);
            return f;
        }
        let a = self.atom(Atom::Var(name.to_string()));
        let m = self.mono(vec![(a, 1)]);
        self.intern(vec![(m, R::ONE)])
    }
    pub fn fun(&mut self, name: &str, args: Vec<FormId>) -> FormId {
        self.init();
        let a = self.atom(Atom::Fun(name.to_string(), args));
        let m = self.mono(vec![(a, 1)]);
        self.intern(vec![(m, R::ONE)])
    }
    /// Decides whether a form is zero on the current path. A non-constant form is assumed non-zero;
    /// the assumption is recorded so that the explorer can visit the other side.
    pub fn decide_zero(&mut self, f: FormId) -> bool {
        if let Some(c) = self.as_const(f) {
            return bool::from(c.is_zero());
        }
        let (_, m) = self.factors(f);
        let n = self.product(R::ONE, m);
        if !self.assumed_nonzero.contains(&n) {
            // an identity in disguise?
            let mut budget = 4000;
            if self.rational(n, &mut budget).map(|(p, _)| p.is_empty()) == Some(true) {
                return true;
            }
            self.assumed_nonzero.push(n);
        }
        false
    }
    // ---------- substitution ----------
    pub fn substitute(&mut self, f: FormId, v: &str, by: FormId, memo: &mut HashMap<FormId, FormId>) -> FormId {
        if let Some(x) = memo.get(&f) {
            return *x;
        }
        let terms = self.forms[f as usize].clone();
        let mut acc = 1;
        for (m, c) in terms {
            let facs = self.monos[m as usize].clone();
            let mut t = self.constant(c);
            for (a, e) in facs {
                let base = match self.atoms[a as usize].clone() {
                    Atom::Var(n) if n == v => by,
                    Atom::Base(g) => self.substitute(g, v, by, memo),
                    Atom::Fun(n, args) => {
                        let args = args.into_iter().map(|x| self.substitute(x, v, by, memo)).collect();
                        self.fun(&n, args)
                    }
                    Atom::Var(_) => {
                        let mm = self.mono(vec![(a, 1)]);
                        self.intern(vec![(mm, R::ONE)])
                    }
                };
                let p = self.pow(base, e);
                t = self.mul(t, p);
            }
            acc = self.add(acc, t);
        }
        memo.insert(f, acc);
        acc
    }
    fn mentions(&self, f: FormId, v: &str) -> bool {
        self.forms[f as usize].iter().any(|(m, _)| {
            self.monos[*m as usize].iter().any(|(a, _)| match &self.atoms[*a as usize] {
                Atom::Var(n) => n == v,
                Atom::Base(g) => self.mentions(*g, v),
                Atom::Fun(_, args) => args.iter().any(|x| self.mentions(*x, v)),
            })
        })
    }
    /// solve f = 0 for a variable that occurs in it only linearly with a constant coefficient
    pub fn solve(&mut self, f: FormId) -> Option<(String, FormId)> {
        let terms = self.forms[f as usize].clone();
        for (ix, (m, c)) in terms.iter().enumerate() {
            let facs = &self.monos[*m as usize];
            if facs.len() == 1 && facs[0].1 == 1 {
                if let Atom::Var(n) = self.atoms[facs[0].0 as usize].clone() {
                    let rest: Vec<_> =
                        terms.iter().enumerate().filter(|(j, _)| *j != ix).map(|(_, t)| *t).collect();
                    let rest = self.intern(rest);
                    if !self.mentions(rest, &n) {
                        let s = self.scale(rest, -(c.invert().unwrap()));
                        return Some((n, s));
                    }
                }
            }
        }
        // a single power product is zero iff one of its positive factors is
        if terms.len() == 1 {
            let facs = self.monos[terms[0].0 as usize].clone();
            for (a, e) in facs {
                if e > 0 {
                    match self.atoms[a as usize].clone() {
                        Atom::Base(g) => {
                            if let Some(r) = self.solve(g) {
                                return Some(r);
                            }
                        }
                        Atom::Var(n) => return Some((n, 1)),
                        _ => {}
                    }
                }
            }
        }
        None
    }

    // ---------- for the constraint solver ----------
    /// variables of a form, sorted
    pub fn vars_ids(&mut self, f: FormId) -> std::sync::Arc<Vec<AtomId>> {
        if let Some(x) = self.vars_memo.get(&f) {
            return x.clone();
        }
        let mut out = std::collections::BTreeSet::new();
        let terms = self.forms[f as usize].clone();
        for (m, _) in terms {
            for (a, _) in self.monos[m as usize].clone() {
                match self.atoms[a as usize].clone() {
                    Atom::Var(_) => {
                        out.insert(a);
                    }
                    Atom::Base(g) => out.extend(self.vars_ids(g).iter().copied()),
                    Atom::Fun(_, args) => {
                        for x in args {
                            out.extend(self.vars_ids(x).iter().copied())
                        }
                    }
                }
            }
        }
        let r = std::sync::Arc::new(out.into_iter().collect::<Vec<_>>());
        self.vars_memo.insert(f, r.clone());
        r
    }
    pub fn raw_var(&mut self, name: &str) -> AtomId {
        self.init();
        self.atom(Atom::Var(name.to_string()))
    }
    pub fn atom_form(&mut self, a: AtomId) -> FormId {
        if let Atom::Base(g) = self.atoms[a as usize] {
            return g;
        }
        let m = self.mono(vec![(a, 1)]);
        self.intern(vec![(m, R::ONE)])
    }
    pub fn var_name(&self, a: AtomId) -> String {
        match &self.atoms[a as usize] {
            Atom::Var(n) => n.clone(),
            _ => String::new(),
        }
    }
    /// replace variables by forms, simultaneously
    pub fn subst_map(
        &mut self, f: FormId, by: &HashMap<AtomId, FormId>, memo: &mut HashMap<FormId, FormId>,
    ) -> FormId {
        if let Some(x) = memo.get(&f) {
            return *x;
        }
        if !self.vars_ids(f).iter().any(|v| by.contains_key(v)) {
            return f;
        }
        let terms = self.forms[f as usize].clone();
        let mut keep = vec![];
        let mut acc = 1;
        for (m, c) in terms {
            let facs = self.monos[m as usize].clone();
            let touched = facs.iter().any(|(a, _)| match &self.atoms[*a as usize] {
                Atom::Var(_) => by.contains_key(a),
                _ => true,
            });
            if !touched {
                keep.push((m, c));
                continue;
            }
            let mut t = self.constant(c);
            for (a, e) in facs {
                let base = match self.atoms[a as usize].clone() {
                    Atom::Var(_) => match by.get(&a) {
                        Some(x) => *x,
                        None => self.atom_form(a),
                    },
                    Atom::Base(g) => self.subst_map(g, by, memo),
                    Atom::Fun(n, args) => {
                        let args = args.into_iter().map(|x| self.subst_map(x, by, memo)).collect();
                        self.fun(&n, args)
                    }
                };
                if e < 0 && base == 1 {
                    panic!("{UNSUPPORTED}: division by zero under substitution");
                }
                let p = self.pow(base, e);
                t = self.mul(t, p);
            }
            acc = self.add(acc, t);
        }
        let k = self.intern(keep);
        let acc = self.add(acc, k);
        memo.insert(f, acc);
        acc
    }
    /// variables that occur only linearly with a constant coefficient: (variable, coefficient)
    pub fn linear_const(&mut self, f: FormId) -> Vec<(AtomId, R)> {
        let terms = self.forms[f as usize].clone();
        let mut count: HashMap<AtomId, usize> = HashMap::default();
        for (m, _) in &terms {
            let mut here = std::collections::BTreeSet::new();
            for (a, _) in self.monos[*m as usize].clone() {
                let g = self.atom_form_vars(a);
                here.extend(g);
            }
            for v in here {
                *count.entry(v).or_insert(0) += 1;
            }
        }
        let mut out = vec![];
        for (m, c) in &terms {
            let facs = &self.monos[*m as usize];
            if facs.len() == 1 && facs[0].1 == 1 {
                if let Atom::Var(_) = self.atoms[facs[0].0 as usize] {
                    if count[&facs[0].0] == 1 {
                        out.push((facs[0].0, *c));
                    }
                }
            }
        }
        out
    }
    fn atom_form_vars(&mut self, a: AtomId) -> Vec<AtomId> {
        match self.atoms[a as usize].clone() {
            Atom::Var(_) => vec![a],
            Atom::Base(g) => self.vars_ids(g).to_vec(),
            Atom::Fun(_, args) => args.into_iter().flat_map(|x| self.vars_ids(x).to_vec()).collect(),
        }
    }
    /// solution of f = 0 for a variable with constant coefficient
    pub fn solve_for(&mut self, f: FormId, v: AtomId, c: R) -> FormId {
        let x = self.atom_form(v);
        let k = -(c.invert().unwrap());
        let cx = self.scale(x, c);
        let rest = self.sub(f, cx);
        self.scale(rest, k)
    }
    /// factors of a form (common powers of its terms, then the cofactor), constants dropped
    pub fn split_product(&mut self, f: FormId) -> Vec<FormId> {
        let terms = self.forms[f as usize].clone();
        if terms.is_empty() {
            return vec![];
        }
        let mut common: BTreeMap<AtomId, i32> = self.monos[terms[0].0 as usize].iter().cloned().collect();
        for (m, _) in &terms[1..] {
            let here: BTreeMap<AtomId, i32> = self.monos[*m as usize].iter().cloned().collect();
            // a missing atom has power 0
            let keys: Vec<AtomId> = common.keys().chain(here.keys()).cloned().collect();
            let mut next = BTreeMap::new();
            for k in keys {
                let e = (*common.get(&k).unwrap_or(&0)).min(*here.get(&k).unwrap_or(&0));
                if e != 0 {
                    next.insert(k, e);
                }
            }
            common = next;
        }
        if common.is_empty() {
            return vec![f];
        }
        let inv: Vec<(AtomId, i32)> = common.iter().map(|(a, e)| (*a, -*e)).collect();
        let mut rest = 1;
        for (m, c) in &terms {
            let mut facs = self.monos[*m as usize].clone();
            facs.extend(inv.iter().cloned());
            let t = self.product(*c, facs);
            rest = self.add(rest, t);
        }
        let mut out = vec![];
        for (a, e) in common {
            if e > 0 {
                out.push(self.atom_form(a));
            }
        }
        if self.as_const(rest).is_none() {
            out.push(rest);
        }
        out
    }
    /// variables that occur with exponent one and a symbolic coefficient: (variable, coefficient, rest)
    pub fn linear_sym(&mut self, f: FormId) -> Vec<(AtomId, FormId, FormId)> {
        let terms = self.forms[f as usize].clone();
        let mut out = vec![];
        for v in self.vars_ids(f).to_vec() {
            let (mut coef, mut rest, mut ok) = (1, 1, true);
            for (m, c) in &terms {
                let facs = self.monos[*m as usize].clone();
                let direct = facs.iter().find(|(a, _)| *a == v).map(|x| x.1);
                let inside = facs.iter().any(|(a, _)| *a != v && self.atom_form_vars(*a).contains(&v));
                if inside {
                    ok = false;
                    break;
                }
                match direct {
                    None => {
                        let t = self.intern(vec![(*m, *c)]);
                        rest = self.add(rest, t);
                    }
                    Some(1) => {
                        let fs: Vec<_> = facs.into_iter().filter(|(a, _)| *a != v).collect();
                        let t = self.product(*c, fs);
                        coef = self.add(coef, t);
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && self.as_const(coef).is_none() {
                out.push((v, coef, rest));
            }
        }
        out
    }
    pub fn monic(&mut self, f: FormId) -> FormId {
        match self.forms[f as usize].last() {
            None => f,
            Some((_, c)) => {
                let i = c.invert().unwrap();
                self.scale(f, i)
            }
        }
    }
    pub fn neg_div(&mut self, num: FormId, den: FormId) -> FormId {
        let i = self.pow(den, -1);
        let p = self.mul(num, i);
        self.scale(p, -R::ONE)
    }
    pub fn arena_size(&self) -> usize {
        self.forms.len()
    }
    pub fn is_negative_free(&self, f: FormId) -> bool {
        self.forms[f as usize].iter().all(|(m, _)| self.monos[*m as usize].iter().all(|(_, e)| *e > 0))
    }
    // ---------- evaluation ----------
    pub fn eval(&self, f: FormId, env: &HashMap<String, R>, memo: &mut HashMap<FormId, R>) -> R {
        if let Some(x) = memo.get(&f) {
            return *x;
        }
        let mut acc = R::ZERO;
        for (m, c) in self.forms[f as usize].iter() {
            let mut t = *c;
            for (a, e) in self.monos[*m as usize].iter() {
                let b = match &self.atoms[*a as usize] {
                    Atom::Var(n) => *env.get(n).unwrap_or_else(|| panic!("unassigned variable {n}")),
                    Atom::Base(g) => self.eval(*g, env, memo),
                    Atom::Fun(n, args) => {
                        let xs: Vec<R> = args.iter().map(|x| self.eval(*x, env, memo)).collect();
                        eval_fun(n, &xs)
                    }
                };
                t *= if *e > 0 {
                    b.pow_vartime([*e as u64])
                } else {
                    b.invert().unwrap_or(R::ZERO).pow_vartime([(-*e) as u64])
                };
            }
            acc += t;
        }
        memo.insert(f, acc);
        acc
    }
    pub fn vars_of(&self, f: FormId, out: &mut Vec<String>, seen: &mut Vec<FormId>) {
        if seen.contains(&f) {
            return;
        }
        seen.push(f);
        for (m, _) in self.forms[f as usize].iter() {
            for (a, _) in self.monos[*m as usize].iter() {
                match &self.atoms[*a as usize] {
                    Atom::Var(n) => {
                        if !out.contains(n) {
                            out.push(n.clone())
                        }
                    }
                    Atom::Base(g) => self.vars_of(*g, out, seen),
                    Atom::Fun(_, args) => {
                        for x in args {
                            self.vars_of(*x, out, seen)
                        }
                    }
                }
            }
        }
    }
    // ---------- full expansion into a ratio of polynomials (bounded) ----------
    fn rational(&mut self, f: FormId, budget: &mut i64) -> Option<(Poly, Poly)> {
        let terms = self.forms[f as usize].clone();
        let mut num = Poly::new();
        let mut den = poly_one();
        for (m, c) in terms {
            let facs = self.monos[m as usize].clone();
            let mut tn = Poly::new();
            tn.insert(vec![], c);
            let mut td = poly_one();
            for (a, e) in facs {
                let (bn, bd) = match self.atoms[a as usize].clone() {
                    Atom::Base(g) if e.unsigned_abs() <= 4 => self.rational(g, budget)?,
                    _ => {
                        let mut p = Poly::new();
                        p.insert(vec![(a, 1)], R::ONE);
                        (p, poly_one())
                    }
                };
                for _ in 0..e.unsigned_abs() {
                    let (x, y) = if e > 0 { (&bn, &bd) } else { (&bd, &bn) };
                    tn = poly_mul(&tn, x, budget)?;
                    td = poly_mul(&td, y, budget)?;
                }
            }
            if td == den {
                num = poly_add(num, &tn);
            } else {
                let l = poly_mul(&num, &td, budget)?;
                let r = poly_mul(&tn, &den, budget)?;
                num = poly_add(l, &r);
                den = poly_mul(&den, &td, budget)?;
            }
        }
        Some((num, den))
    }
    pub fn is_zero_expanded(&mut self, f: FormId, mut budget: i64) -> Option<bool> {
        self.rational(f, &mut budget).map(|(n, _)| n.is_empty())
    }
    pub fn show(&self, f: FormId) -> String {
        let mut out = String::new();
        self.show_to(f, &mut out);
        if out.len() > 400 {
            out.truncate(400);
            out.push_str("...");
        }
        out
    }
    fn show_to(&self, f: FormId, out: &mut String) {
        if f == 1 {
            out.push('0');
        }
        for (i, (m, c)) in self.forms[f as usize].iter().enumerate() {
            if out.len() > 400 {
                return;
            }
            if i > 0 {
                out.push_str(" + ");
            }
            out.push_str(&coef(c));
            for (a, e) in self.monos[*m as usize].iter() {
                if out.len() > 400 {
                    return;
                }
                out.push('*');
                match &self.atoms[*a as usize] {
                    Atom::Var(n) => out.push_str(n),
                    Atom::Base(g) => {
                        out.push('(');
                        self.show_to(*g, out);
                        out.push(')');
                    }
                    Atom::Fun(n, x) => {
                        out.push_str(n);
                        out.push('(');
                        for y in x {
                            self.show_to(*y, out);
                            out.push(',');
                        }
                        out.push(')');
                    }
                }
                if *e != 1 {
                    out.push_str(&format!("^{e}"));
                }
            }
        }
    }
}
fn coef(c: &R) -> String {
    let b = c.to_repr();
    if b[8..].iter().all(|x| *x == 0) {
        format!("{}", u64::from_le_bytes(b[..8].try_into().unwrap()))
    } else {
        let n = -*c;
        let b2 = n.to_repr();
        if b2[8..].iter().all(|x| *x == 0) {
            format!("-{}", u64::from_le_bytes(b2[..8].try_into().unwrap()))
        } else {
            hex(c)
        }
    }
}
pub fn hex(c: &R) -> String {
    let mut b = c.to_repr();
    b.reverse();
    format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
/// interpretation of uninterpreted functions under evaluation
fn eval_fun(name: &str, xs: &[R]) -> R {
    if let Some(h) = FUN_HOOK.get() {
        if let Some(v) = h(name, xs) {
            return v;
        }
    }
    let mut acc = R::from(name.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
    for x in xs {
        acc = acc * R::from(0x9e3779b97f4a7c15) + *x;
        acc = acc * acc * acc + R::from(11);
    }
    acc
}
/// meaning given to uninterpreted functions by the harness
pub static FUN_HOOK: std::sync::OnceLock<fn(&str, &[R]) -> Option<R>> = std::sync::OnceLock::new();
type Poly = BTreeMap<Vec<(AtomId, u32)>, R>;
fn poly_one() -> Poly {
    let mut p = Poly::new();
    p.insert(vec![], R::ONE);
    p
}
fn poly_add(mut a: Poly, b: &Poly) -> Poly {
    for (m, c) in b {
        let e = a.entry(m.clone()).or_insert(R::ZERO);
        *e += *c;
        if bool::from(e.is_zero()) {
            a.remove(m);
        }
    }
    a
}
fn poly_mul(a: &Poly, b: &Poly, budget: &mut i64) -> Option<Poly> {
    *budget -= (a.len() * b.len()) as i64;
    if *budget < 0 {
        return None;
    }
    let mut out = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut k: BTreeMap<AtomId, u32> = m.iter().cloned().collect();
            for (x, e) in n {
                *k.entry(*x).or_insert(0) += e;
            }
            let k: Vec<_> = k.into_iter().collect();
            let e = out.entry(k.clone()).or_insert(R::ZERO);
            *e += *c * *d;
            if bool::from(e.is_zero()) {
                out.remove(&k);
            }
        }
    }
    Some(out)
}

static ARENA: Mutex<Option<Arena>> = Mutex::new(None);

pub fn with<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
    let mut g = match ARENA.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let a = g.get_or_insert_with(Arena::default);
    a.init();
    f(a)
}

/// Message prefix of the panic raised when the code under test inspects the representation of a
/// symbolic value (something no polynomial argument can follow).
pub const UNSUPPORTED: &str = "SYM-UNSUPPORTED";
pub fn unsupported(what: &str) -> ! {
    panic!("{UNSUPPORTED}: {what} on a symbolic field element")
}

/// Forget all per-path state, then install substitutions.
pub fn begin_path(subst: &BTreeMap<String, FormId>) {
    with(|a| {
        a.subst = subst.clone();
        a.assumed_nonzero.clear();
        a.cmp_used = 0;
        a.vars_seen.clear();
        a.fresh = 0;
        a.auto = None;
    })
}
/// As `begin_path`, binding every further variable to a pseudo-random constant on first use.
pub fn begin_concrete(subst: &BTreeMap<String, FormId>, seed: u64) {
    begin_path(subst);
    with(|a| a.auto = Some(seed));
}
/// the constants bound on the current path
pub fn bindings() -> Vec<(String, R)> {
    with(|a| {
        let v: Vec<(String, FormId)> = a.subst.iter().map(|(k, f)| (k.clone(), *f)).collect();
        v.into_iter().filter_map(|(k, f)| a.as_const(f).map(|c| (k, c))).collect()
    })
}
/// Drop the whole arena (all symbolic values become invalid).
pub fn reset() {
    with(|a| {
        *a = Arena::default();
        a.init();
    })
}
pub fn assumed() -> Vec<FormId> {
    with(|a| a.assumed_nonzero.clone())
}
pub fn vars_seen() -> Vec<String> {
    with(|a| a.vars_seen.clone())
}
pub fn fresh_name(p: &str) -> String {
    with(|a| {
        a.fresh += 1;
        format!("{p}#{}", a.fresh - 1)
    })
}
/// Extend a substitution by the solution of `f = 0`; `None` when `f` cannot be solved.
pub fn extend_subst(s: &BTreeMap<String, FormId>, f: FormId) -> Option<BTreeMap<String, FormId>> {
    with(|a| {
        let (v, e) = a.solve(f)?;
        let mut out = BTreeMap::new();
        let mut memo = HashMap::default();
        for (k, x) in s {
            let y = a.substitute(*x, &v, e, &mut memo);
            out.insert(k.clone(), y);
        }
        out.insert(v, e);
        Some(out)
    })
}
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// same normal form (or same fully expanded rational function): equal for all values
    Proved,
    /// differ at this assignment
    Refuted(Vec<(String, R)>),
    /// neither
    Undecided,
}
