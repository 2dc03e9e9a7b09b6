//! Definitional rewriting of a function body into the subset Verus accepts: `for` loops and iterator
//! pipelines become indexed `while` loops, local closures become functions, caches become their
//! initialisers.  Everything else is passed through token for token.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug)]
pub enum Kind {
    Ref,
    Mut,
    Val,
}
#[derive(Clone, Debug)]
pub struct Lifted {
    pub name: String,
    pub params: Vec<FnArg>,
    pub captured: Vec<(String, Type)>,
    pub body: Expr,
    pub ret: ReturnType,
}
pub struct Fun {
    pub outer: String,
    pub generics: Vec<String>,
    pub kinds: BTreeMap<String, Kind>,
    pub ptypes: BTreeMap<String, Type>,
    pub lifted: Vec<Lifted>,
    pub loops: usize,
    pub returns: usize,
    pub hoists: usize,
    pub opaques: std::collections::BTreeSet<String>,
    pub shape: String,
    pub notes: BTreeSet<String>,
    pub unit: bool,
    /// assertions are run-time refusals, not proof obligations
    pub refuses: bool,
    pub refusals: usize,
    /// `.map(closure)` outside of iterator pipelines is Result::map
    pub result_map: bool,
    /// closures to substitute at their calls, and what was found of them
    pub inline: Vec<String>,
    pub inlined: BTreeMap<String, ExprClosure>,
    /// types of closure parameters (closure.param) and results (closure), as rustc infers them
    pub types: BTreeMap<String, String>,
    /// Self is an endless generator: self.take(n) calls self.next() n times
    pub generator: bool,
    pub breaks: usize,
    /// methods that are handed a name and a closure over the receiver: R.m("..", |p| body) is R.m(body[p := R])
    pub callbacks: Vec<String>,
    pub called: usize,
    /// iterators bound by `let`, and used once the way they are defined
    pub iters: BTreeMap<String, Expr>,
    /// loops over array literals are written out
    pub unroll: bool,
    /// names of Option values whose map/unwrap_or_else is written as a match
    pub options: Vec<String>,
    pub arrays: BTreeMap<String, usize>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn mark(what: &str) -> Stmt {
    parse_quote!(__vx_at!(#what);)
}

#[derive(Clone)]
enum It {
    Slice(Expr, Kind),
    Range(Expr, Expr),
    Repeat(Expr),
    Once(Expr),
    Empty,
    Chain(Box<It>, Box<It>),
    Zip(Box<It>, Box<It>),
    Skip(Box<It>, Expr),
    Take(Box<It>, Expr),
    Enumerate(Box<It>),
    Map(Box<It>, ExprClosure),
    Copied(Box<It>),
    Rev(Box<It>),
    Opaque(Ident),
    Gen(Expr),
    /// the elements of an array literal
    Lits(Vec<Expr>),
}
#[derive(Clone)]
enum Elem {
    Place(Expr, Kind),
    Value(Expr),
    If(Expr, Box<Elem>, Box<Elem>),
    Tuple(Vec<Elem>),
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}
fn path_ident(e: &Expr) -> Option<String> {
    match strip_paren(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

pub fn param_kind(t: &Type) -> Option<Kind> {
    match t {
        Type::Reference(r) => match &*r.elem {
            Type::Slice(_) | Type::Array(_) => Some(if r.mutability.is_some() { Kind::Mut } else { Kind::Ref }),
            Type::Path(p) if p.path.segments.last().map_or(false, |s| ["Vec", "State", "Mds", "SpongeRate"].contains(&s.ident.to_string().as_str())) => {
                Some(if r.mutability.is_some() { Kind::Mut } else { Kind::Ref })
            }
            _ => None,
        },
        Type::Array(_) => Some(Kind::Val),
        _ => None,
    }
}

impl Fun {
    fn parse(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Option<It> {
        let bx = Box::new;
        match strip_paren(e) {
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|x| (**x).clone())?;
                let hi = r.end.as_ref().map(|x| (**x).clone())?;
                match r.limits {
                    RangeLimits::HalfOpen(_) => Some(It::Range(lo, hi)),
                    RangeLimits::Closed(_) => Some(It::Range(lo, parse_quote!((#hi + 1)))),
                }
            }
            Expr::Reference(r) => match strip_paren(&r.expr) {
                e2 => Some(It::Slice(e2.clone(), if r.mutability.is_some() { Kind::Mut } else { Kind::Ref })),
            },
            Expr::Call(c) => {
                if c.args.len() == 1 && path_ident(&c.func).map_or(false, |n| n == "Some") {
                    let x = self.hoist(&c.args[0], pre);
                    // read inside a loop: a copy
                    return Some(It::Once(parse_quote!(#x.clone())));
                }
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 2] == "iter" {
                        match (segs[segs.len() - 1].as_str(), c.args.len()) {
                            ("empty", 0) => return Some(It::Empty),
                            ("once", 1) => {
                                let x = self.hoist(&c.args[0], pre);
                                return Some(It::Once(x));
                            }
                            ("repeat", 1) => {
                                let x = if is_fnref(&c.args[0], self) { c.args[0].clone() } else { self.hoist(&c.args[0], pre) };
                                return Some(It::Repeat(x));
                            }
                            _ => {}
                        }
                    }
                }
                self.opaque(e, pre)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a = &m.args;
                match (name.as_str(), a.len()) {
                    ("iter", 0) => match strip_paren(&m.receiver) {
                        // x[a..].iter()
                        Expr::Index(ExprIndex { expr, index, .. }) if matches!(strip_paren(index), Expr::Range(r) if r.start.is_some() && r.end.is_none()) => match strip_paren(index) {
                            Expr::Range(r) => Some(It::Skip(bx(It::Slice((**expr).clone(), Kind::Ref)), (**r.start.as_ref().unwrap()).clone())),
                            _ => None,
                        },
                        Expr::Index(ExprIndex { expr, index, .. }) if matches!(strip_paren(index), Expr::Range(r) if r.start.is_none() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_))) => match strip_paren(index) {
                            Expr::Range(r) => Some(It::Take(bx(It::Slice((**expr).clone(), Kind::Ref)), (**r.end.as_ref().unwrap()).clone())),
                            _ => None,
                        },
                        _ => Some(It::Slice((*m.receiver).clone(), Kind::Ref)),
                    },
                    ("iter_mut", 0) => Some(It::Slice((*m.receiver).clone(), Kind::Mut)),
                    ("into_iter", 0) => self.parse(&m.receiver, pre),
                    ("take", 1) if self.generator && path_ident(&m.receiver).map_or(false, |n| n == "self") => {
                        self.notes.insert("Iterator::take on the generator itself: n calls of next()".into());
                        Some(It::Take(bx(It::Gen((*m.receiver).clone())), a[0].clone()))
                    }
                    ("skip", 1) => Some(It::Skip(bx(self.parse(&m.receiver, pre)?), a[0].clone())),
                    ("take", 1) => Some(It::Take(bx(self.parse(&m.receiver, pre)?), a[0].clone())),
                    ("enumerate", 0) => Some(It::Enumerate(bx(self.parse(&m.receiver, pre)?))),
                    ("copied" | "cloned", 0) => Some(It::Copied(bx(self.parse(&m.receiver, pre)?))),
                    ("rev", 0) => Some(It::Rev(bx(self.parse(&m.receiver, pre)?))),
                    ("chunks", 1) => {
                        self.notes.insert("slice::chunks: read through its item sequence (Yields)".into());
                        let (r, n) = (&m.receiver, &a[0]);
                        self.opaque(&parse_quote!(chunked(#r, #n)), pre)
                    }
                    ("zip", 1) => {
                        let x = self.parse(&m.receiver, pre)?;
                        let y = self.parse(&a[0], pre)?;
                        Some(It::Zip(bx(x), bx(y)))
                    }
                    ("chain", 1) => {
                        let x = self.parse(&m.receiver, pre)?;
                        let y = self.parse(&a[0], pre)?;
                        Some(It::Chain(bx(x), bx(y)))
                    }
                    ("map", 1) => match strip_paren(&a[0]) {
                        Expr::Closure(c) => Some(It::Map(bx(self.parse(&m.receiver, pre)?), c.clone())),
                        // a constructor or function name
                        Expr::Path(f) => {
                            let c: ExprClosure = parse_quote!(|x__| #f(x__));
                            Some(It::Map(bx(self.parse(&m.receiver, pre)?), c))
                        }
                        _ => None,
                    },
                    _ => self.opaque(e, pre),
                }
            }
            Expr::Array(a) if self.unroll && a.elems.len() <= 16 => {
                let v = a.elems.iter().map(|x| {
                    let mut x = x.clone();
                    let mut t = Temps(self, pre);
                    t.visit_expr_mut(&mut x);
                    self.hoist(&x, pre)
                }).collect();
                Some(It::Lits(v))
            }
            Expr::Repeat(r) if self.unroll && matches!(&*r.expr, Expr::Lit(_)) => match &*r.len {
                Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.base10_parse::<usize>().map_or(false, |n| n <= 16) => Some(It::Lits(vec![(*r.expr).clone(); n.base10_parse().unwrap()])),
                _ => None,
            },
            Expr::Path(_) if path_ident(e).map_or(false, |n| self.iters.contains_key(&n)) => {
                let x = self.iters[&path_ident(e).unwrap()].clone();
                self.parse(&x, pre)
            }
            Expr::Path(_) => match path_ident(e).and_then(|n| self.kinds.get(&n).cloned()) {
                Some(k) => Some(It::Slice(strip_paren(e).clone(), k)),
                None => self.opaque(e, pre),
            },
            _ => None,
        }
    }
    fn hoist(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Expr {
        if let Expr::Lit(_) = e {
            return e.clone();
        }
        let c = id(&format!("c{}__", self.hoists));
        self.hoists += 1;
        pre.push(parse_quote!(let #c = #e;));
        parse_quote!(#c)
    }
    fn opaque(&mut self, e: &Expr, pre: &mut Vec<Stmt>) -> Option<It> {
        // named after the loop that runs through it
        let mut n = format!("it{}", self.loops);
        while !self.opaques.insert(n.clone()) {
            n.push('b');
        }
        let c = id(&format!("{n}__"));
        pre.push(parse_quote!(let #c = #e;));
        self.notes.insert("IntoIterator of a padding value: read through its item sequence (Yields)".into());
        Some(It::Opaque(c))
    }
    fn len(&self, it: &It) -> Option<Expr> {
        Some(match it {
            It::Slice(b, _) => parse_quote!(#b.len()),
            It::Range(lo, hi) => parse_quote!(sub0(#hi, #lo)),
            It::Repeat(_) | It::Gen(_) => return None,
            It::Once(_) => parse_quote!(1usize),
            It::Empty => parse_quote!(0usize),
            It::Chain(a, b) => {
                let (x, y) = (self.len(a)?, self.len(b)?);
                if matches!(**a, It::Empty) { y } else { parse_quote!((#x + #y)) }
            }
            It::Zip(a, b) => match (self.len(a), self.len(b)) {
                (None, None) => return None,
                (Some(x), None) | (None, Some(x)) => x,
                (Some(x), Some(y)) => parse_quote!(min(#x, #y)),
            },
            It::Skip(a, n) => {
                let x = self.len(a)?;
                parse_quote!(sub0(#x, #n))
            }
            It::Take(a, n) => match self.len(a) {
                Some(x) => parse_quote!(min(#x, #n)),
                None => n.clone(),
            },
            It::Enumerate(a) | It::Map(a, _) | It::Copied(a) | It::Rev(a) => self.len(a)?,
            It::Opaque(c) => parse_quote!(#c.n_items()),
            It::Lits(v) => {
                let n = v.len();
                parse_quote!(#n)
            }
        })
    }
    fn elem(&mut self, it: &It, ix: Expr) -> Option<Elem> {
        Some(match it {
            It::Slice(b, Kind::Val) => Elem::Value(parse_quote!(#b[#ix])),
            It::Slice(b, k) => Elem::Place(parse_quote!(#b[#ix]), k.clone()),
            It::Range(lo, _) => match strip_paren(lo) {
                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0" => Elem::Value(ix),
                _ => Elem::Value(parse_quote!((#lo + #ix))),
            },
            It::Repeat(e) | It::Once(e) => Elem::Value(e.clone()),
            It::Gen(e) => Elem::Value(parse_quote!(#e.next().unwrap())),
            It::Empty => return None,
            It::Chain(a, b) => {
                if matches!(**a, It::Empty) {
                    return self.elem(b, ix);
                }
                let n = self.len(a)?;
                let x = self.elem(a, ix.clone())?;
                let y = self.elem(b, parse_quote!((#ix - #n)))?;
                Elem::If(parse_quote!(#ix < #n), Box::new(x), Box::new(y))
            }
            It::Zip(a, b) => {
                let x = self.elem(a, ix.clone())?;
                let y = self.elem(b, ix)?;
                Elem::Tuple(vec![x, y])
            }
            It::Skip(a, n) => self.elem(a, parse_quote!((#n + #ix)))?,
            It::Take(a, _) => self.elem(a, ix)?,
            It::Enumerate(a) => {
                let x = self.elem(a, ix.clone())?;
                Elem::Tuple(vec![Elem::Value(ix), x])
            }
            It::Copied(a) => match self.elem(a, ix)? {
                Elem::Place(p, _) => Elem::Value(p),
                _ => return None,
            },
            It::Rev(a) => {
                let n = self.len(a)?;
                self.elem(a, parse_quote!((#n - 1 - #ix)))?
            }
            It::Map(a, c) => {
                let x = self.elem(a, ix)?;
                if c.inputs.len() != 1 {
                    return None;
                }
                let (mut binds, mut subst) = (vec![], vec![]);
                self.bind(&c.inputs[0], x, &mut binds, &mut subst)?;
                let mut body = (*c.body).clone();
                for s in &subst {
                    apply_subst(&mut body, s);
                }
                if binds.is_empty() { Elem::Value(body) } else { Elem::Value(parse_quote!({ #(#binds)* #body })) }
            }
            It::Opaque(c) => Elem::Value(parse_quote!(#c.item(#ix))),
            It::Lits(v) => match strip_paren(&ix) {
                Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) => Elem::Value(v.get(k.base10_parse::<usize>().ok()?)?.clone()),
                _ => return None,
            },
        })
    }
    fn value(&self, e: &Elem) -> Option<Expr> {
        Some(match e {
            Elem::Value(e) => e.clone(),
            Elem::Place(p, Kind::Mut) => parse_quote!(&mut #p),
            Elem::Place(p, _) => parse_quote!(&#p),
            Elem::If(c, a, b) => {
                let (a, b) = (self.value(a)?, self.value(b)?);
                parse_quote!(if #c { #a } else { #b })
            }
            Elem::Tuple(v) => {
                let v: Option<Vec<Expr>> = v.iter().map(|x| self.value(x)).collect();
                let v = v?;
                parse_quote!((#(#v),*))
            }
        })
    }
    fn bind(&mut self, p: &Pat, e: Elem, binds: &mut Vec<Stmt>, subst: &mut Vec<Subst>) -> Option<()> {
        match (p, e) {
            (Pat::Wild(_), Elem::Value(v)) if !matches!(strip_paren(&v), Expr::Path(_) | Expr::Lit(_)) => binds.push(parse_quote!(let _ = #v;)),
            (Pat::Wild(_), _) => {}
            (Pat::Type(t), e) => return self.bind(&t.pat, e, binds, subst),
            (Pat::Paren(t), e) => return self.bind(&t.pat, e, binds, subst),
            (Pat::Tuple(t), Elem::Tuple(v)) if t.elems.len() == v.len() => {
                for (p, e) in t.elems.iter().zip(v) {
                    self.bind(p, e, binds, subst)?;
                }
            }
            (Pat::Tuple(t), Elem::Place(pl, k)) => {
                // a tuple element seen through a reference
                for (i, p) in t.elems.iter().enumerate() {
                    let ix = Index::from(i);
                    self.bind(p, Elem::Place(parse_quote!(#pl.#ix), k.clone()), binds, subst)?;
                }
            }
            (Pat::Slice(t), Elem::Place(pl, k)) => {
                for (i, p) in t.elems.iter().enumerate() {
                    self.bind(p, Elem::Place(parse_quote!(#pl[#i]), k.clone()), binds, subst)?;
                }
            }
            (Pat::Reference(r), Elem::Place(pl, _)) => {
                let p = &r.pat;
                binds.push(parse_quote!(let #p = #pl;));
            }
            (Pat::Ident(i), Elem::Place(pl, Kind::Mut)) => subst.push(Subst { name: i.ident.to_string(), to: To::Place(pl) }),
            (Pat::Ident(i), e) => {
                if let Some(f) = self.fn_if(&e) {
                    subst.push(Subst { name: i.ident.to_string(), to: To::Fn(f) });
                } else {
                    let v = self.value(&e)?;
                    binds.push(parse_quote!(let #p = #v;));
                }
            }
            (p, Elem::Value(v)) => binds.push(parse_quote!(let #p = #v;)),
            _ => return None,
        }
        Some(())
    }
    fn fn_if(&self, e: &Elem) -> Option<FnIf> {
        match e {
            Elem::Value(x) => fnref_name(x, self).map(FnIf::F),
            Elem::If(c, a, b) => Some(FnIf::If(c.clone(), Box::new(self.fn_if(a)?), Box::new(self.fn_if(b)?))),
            _ => None,
        }
    }
    fn static_len(&self, it: &It) -> Option<usize> {
        match it {
            It::Lits(v) => Some(v.len()),
            It::Enumerate(a) | It::Map(a, _) | It::Copied(a) => self.static_len(a),
            It::Zip(a, b) => match (self.static_len(a), self.static_len(b)) {
                (Some(x), Some(y)) => Some(x.min(y)),
                _ => None,
            },
            _ => None,
        }
    }
    /// `for p in it { body }`
    fn loop_block(&mut self, p: &Pat, it: &Expr, body: Block, kind: &str) -> Option<Block> {
        let k = self.loops;
        let mut pre = vec![];
        let it = self.parse(it, &mut pre)?;
        if let Some(n) = self.static_len(&it) {
            let mut br = Breaks(false);
            br.visit_block(&body);
            if br.0 {
                return None;
            }
            for s in pre.iter_mut() {
                self.visit_stmt_mut(s);
            }
            let mut blocks: Vec<Block> = vec![];
            for j in 0..n {
                let elem = self.elem(&it, parse_quote!(#j))?;
                let (mut binds, mut subst) = (vec![], vec![]);
                self.bind(p, elem, &mut binds, &mut subst)?;
                let mut b = body.clone();
                for s in &subst {
                    apply_subst_block(&mut b, s);
                }
                for s in binds.iter_mut() {
                    self.visit_stmt_mut(s);
                }
                visit_mut::visit_block_mut(self, &mut b);
                self.visit_stmts(&mut b.stmts);
                let st = &mut b.stmts;
                if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                    *semi = Some(Default::default());
                }
                blocks.push(parse_quote!({ #(#binds)* #(#st)* }));
            }
            self.notes.insert("loops over array literals are written out, element by element".into());
            return Some(parse_quote!({ #(#pre)* #(#blocks)* }));
        }
        let n_expr = self.len(&it)?;
        let (i, n, j) = (id(&format!("i{k}__")), id(&format!("n{k}__")), id(&format!("j{k}__")));
        let elem = self.elem(&it, parse_quote!(#j))?;
        let (mut binds, mut subst) = (vec![], vec![]);
        self.bind(p, elem, &mut binds, &mut subst)?;
        let mut body = body;
        for s in &subst {
            apply_subst_block(&mut body, s);
        }
        self.loops += 1;
        self.shape.push_str(kind);
        self.shape.push_str(&format!("{}{{", modified(&body)));
        visit_mut::visit_block_mut(self, &mut body);
        self.visit_stmts(&mut body.stmts);
        self.shape.push('}');
        let stmts = &body.stmts;
        for s in pre.iter_mut().chain(binds.iter_mut()) {
            self.visit_stmt_mut(s);
        }
        let (m0, m1, m2, m3) = (mark(&format!("before-loop {k}")), mark(&format!("loop-begin {k}")), mark(&format!("loop-end {k}")), mark(&format!("after-loop {k}")));
        let mb = mark(&format!("loop-body {k}"));
        let spec = format!("loop {k}");
        // a tail expression of the body becomes a statement
        let mut stmts2: Vec<Stmt> = stmts.clone();
        if let Some(Stmt::Expr(_, semi)) = stmts2.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        Some(parse_quote!({
            #(#pre)*
            let mut #i: usize = 0;
            let #n: usize = #n_expr;
            #m0
            while #i < #n {
                __vx_spec!(#spec);
                let #j: usize = #i;
                #i = #i + 1;
                #m1
                #(#binds)*
                #mb
                #(#stmts2)*
                #m2
            }
            #m3
        }))
    }
    /// marks before `return` statements and after `let`s
    fn visit_stmts(&mut self, stmts: &mut Vec<Stmt>) {
        let mut out = vec![];
        for s in stmts.drain(..) {
            let ret = matches!(&s, Stmt::Expr(Expr::Return(_), _));
            if ret {
                out.push(mark(&format!("before-return {}", self.returns)));
                self.returns += 1;
            }
            let name = match &s {
                Stmt::Local(Local { pat: Pat::Ident(i), .. }) => Some(i.ident.to_string()),
                Stmt::Local(Local { pat: Pat::Type(t), .. }) => match &*t.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            out.push(s);
            if let Some(n) = name {
                out.push(mark(&format!("after-let {n}")));
            }
        }
        *stmts = out;
    }
    pub fn body(&mut self, b: &mut Block) {
        self.lift_closures(b);
        self.bound_iterators(b);
        visit_mut::visit_block_mut(self, b);
        self.visit_stmts(&mut b.stmts);
        b.stmts.insert(0, mark("begin"));
        let tail = mark("tail");
        if self.unit {
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        match b.stmts.last() {
            Some(Stmt::Expr(_, None)) => {
                let n = b.stmts.len() - 1;
                b.stmts.insert(n, tail)
            }
            _ => b.stmts.push(tail),
        }
    }
    fn lift_closures(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(Local { pat: Pat::Ident(pi), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &s {
                if let Expr::Closure(c) = strip_paren(expr) {
                    let name = pi.ident.to_string();
                    if self.inline.contains(&name) {
                        self.notes.insert(format!("local closure {name} substituted at its calls"));
                        self.inlined.insert(name, c.clone());
                        continue;
                    }
                    if let Some(l) = self.lift(&name, c) {
                        self.notes.insert(format!("local closure {} lifted to a function", pi.ident));
                        self.lifted.push(l);
                        continue;
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        if !self.inlined.is_empty() {
            InlineCalls { closures: &self.inlined, n: 0 }.visit_block_mut(b);
        }
        let lifted = self.lifted.clone();
        let outer = self.outer.clone();
        let gen = self.generics.clone();
        let mut r = RenameCalls { lifted: &lifted, outer: &outer, generics: &gen };
        r.visit_block_mut(b);
        let mut ls = self.lifted.clone();
        for l in ls.iter_mut() {
            r.visit_expr_mut(&mut l.body);
        }
        self.lifted = ls;
    }
    fn lift(&mut self, name: &str, c: &ExprClosure) -> Option<Lifted> {
        let mut params = vec![];
        let mut bound = BTreeSet::new();
        for p in &c.inputs {
            match p {
                Pat::Type(t) => {
                    let (pat, ty) = (&t.pat, &t.ty);
                    if let Pat::Ident(i) = &**pat {
                        bound.insert(i.ident.to_string());
                    }
                    params.push(parse_quote!(#pat: #ty));
                }
                // the type inferred by rustc, stated in the template (and checked by rustc)
                Pat::Ident(i) if self.types.contains_key(&format!("{name}.{}", i.ident)) => {
                    let ty: Type = parse_str(&self.types[&format!("{name}.{}", i.ident)]).ok()?;
                    bound.insert(i.ident.to_string());
                    params.push(parse_quote!(#i: #ty));
                }
                _ => return None,
            }
        }
        let mut free = Free { names: BTreeSet::new() };
        free.visit_expr(&c.body);
        let mut captured: Vec<(String, Type)> = vec![];
        for n in &free.names {
            if bound.contains(n) {
                continue;
            }
            if let Some(l) = self.lifted.iter().find(|l| &l.name == n) {
                for x in &l.captured {
                    if !captured.iter().any(|y| y.0 == x.0) {
                        captured.push(x.clone());
                    }
                }
            } else if let Some(t) = self.ptypes.get(n) {
                if !captured.iter().any(|y| &y.0 == n) {
                    captured.push((n.clone(), t.clone()));
                }
            }
        }
        captured.sort_by(|a, b| a.0.cmp(&b.0));
        let ret = match self.types.get(name) {
            Some(t) => {
                let t: Type = parse_str(t).ok()?;
                parse_quote!(-> #t)
            }
            None => c.output.clone(),
        };
        Some(Lifted { name: name.to_string(), params, captured, body: (*c.body).clone(), ret })
    }
}

struct InlineCalls<'a> {
    closures: &'a BTreeMap<String, ExprClosure>,
    n: usize,
}
impl VisitMut for InlineCalls<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Some(cl) = path_ident(&c.func).and_then(|n| self.closures.get(&n)) {
                if cl.inputs.len() == c.args.len() {
                    let (mut pre, mut binds): (Vec<Stmt>, Vec<Stmt>) = (vec![], vec![]);
                    for (p, a) in cl.inputs.iter().zip(&c.args) {
                        let t = id(&format!("a{}__", self.n));
                        self.n += 1;
                        pre.push(parse_quote!(let #t = #a;));
                        binds.push(parse_quote!(let #p = #t;));
                    }
                    let b = match &*cl.body {
                        Expr::Block(b) => b.block.clone(),
                        x => parse_quote!({ #x }),
                    };
                    let st = &b.stmts;
                    *e = parse_quote!({ #(#pre)* #(#binds)* #(#st)* });
                }
            }
        }
    }
}
struct Free {
    names: BTreeSet<String>,
}
impl<'a> Visit<'a> for Free {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.names.insert(i.to_string());
        }
    }
}
struct RenameCalls<'a> {
    lifted: &'a [Lifted],
    outer: &'a str,
    generics: &'a [String],
}
impl<'a> VisitMut for RenameCalls<'a> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Some(n) = path_ident(&c.func) {
            if let Some(l) = self.lifted.iter().find(|l| l.name == n) {
                let f = id(&format!("{}__{}", self.outer, n));
                let g: Vec<Ident> = self.generics.iter().map(|s| id(s)).collect();
                if g.is_empty() {
                    c.func = parse_quote!(#f);
                } else {
                    c.func = parse_quote!(#f::<#(#g),*>);
                }
                for (x, _) in &l.captured {
                    let x = id(x);
                    c.args.push(parse_quote!(#x));
                }
            }
        }
    }
}

#[derive(Clone)]
enum FnIf {
    F(String),
    If(Expr, Box<FnIf>, Box<FnIf>),
}
#[derive(Clone)]
enum To {
    Place(Expr),
    Fn(FnIf),
}
#[derive(Clone)]
struct Subst {
    name: String,
    to: To,
}
fn fnref_name(e: &Expr, f: &Fun) -> Option<String> {
    match strip_paren(e) {
        Expr::Cast(c) => fnref_name(&c.expr, f),
        Expr::Reference(r) => fnref_name(&r.expr, f),
        e => path_ident(e).filter(|n| f.lifted.iter().any(|l| &l.name == n)),
    }
}
fn is_fnref(e: &Expr, f: &Fun) -> bool {
    fnref_name(e, f).is_some()
}
struct Apply<'a> {
    s: &'a Subst,
}
impl<'a> VisitMut for Apply<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match &self.s.to {
            To::Place(p) => {
                match e {
                    Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if path_ident(expr).as_deref() == Some(&self.s.name) => {
                        *e = p.clone();
                        return;
                    }
                    Expr::MethodCall(m) if path_ident(&m.receiver).as_deref() == Some(&self.s.name) => {
                        m.receiver = Box::new(p.clone());
                        for a in m.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                    Expr::Field(f) if path_ident(&f.base).as_deref() == Some(&self.s.name) => {
                        f.base = Box::new(p.clone());
                        return;
                    }
                    Expr::Index(f) if path_ident(&f.expr).as_deref() == Some(&self.s.name) => {
                        f.expr = Box::new(p.clone());
                        self.visit_expr_mut(&mut f.index);
                        return;
                    }
                    _ => {}
                }
                if path_ident(e).as_deref() == Some(&self.s.name) {
                    *e = parse_quote!(&mut #p);
                    return;
                }
            }
            To::Fn(f) => {
                if let Expr::Call(c) = e {
                    if path_ident(&c.func).as_deref() == Some(&self.s.name) {
                        fn build(f: &FnIf, c: &ExprCall) -> Expr {
                            match f {
                                FnIf::F(n) => {
                                    let mut c = c.clone();
                                    let n = id(n);
                                    c.func = parse_quote!(#n);
                                    Expr::Call(c)
                                }
                                FnIf::If(k, a, b) => {
                                    let (a, b) = (build(a, c), build(b, c));
                                    parse_quote!(if #k { #a } else { #b })
                                }
                            }
                        }
                        *e = build(f, c);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn apply_subst(e: &mut Expr, s: &Subst) {
    Apply { s }.visit_expr_mut(e)
}
fn apply_subst_block(b: &mut Block, s: &Subst) {
    Apply { s }.visit_block_mut(b)
}

fn mac_args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}

impl VisitMut for Fun {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        self.visit_stmts(&mut b.stmts);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            *s = Stmt::Expr(e, Some(Default::default()));
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops
        if let Expr::ForLoop(f) = e {
            if f.label.is_none() {
                if let Some(b) = self.loop_block(&f.pat.clone(), &f.expr.clone(), f.body.clone(), "F") {
                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    self.notes.insert("for loops and iterator pipelines written as indexed while loops (definition of the std iterators)".into());
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = strip_paren(&t.expr) {
                let name = m.method.to_string();
                let res = m.turbofish.as_ref().map_or(false, |f| tokens(f).replace(' ', "").contains("<Result<Vec<"));
                if name == "collect" && res {
                    let v = id(&format!("t{}__", self.hoists));
                    self.hoists += 1;
                    let x = id("x__");
                    let body: Block = parse_quote!({ #v.push(#x?); });
                    let pat: Pat = parse_quote!(#x);
                    if let Some(b) = self.loop_block(&pat, &m.receiver.clone(), body, "C") {
                        let st = &b.stmts;
                        self.notes.insert("collect::<Result<Vec<_>, _>>()? and try_for_each(..)? return at the first error (their definition)".into());
                        *e = parse_quote!({ let mut #v = Vec::new(); #(#st)* #v });
                        return;
                    }
                }
                if name == "try_for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip_paren(&m.args[0]).clone() {
                        let mut f = Returns(false);
                        f.visit_expr(&c.body);
                        if c.inputs.len() == 1 && !f.0 {
                            let x = &c.body;
                            let body: Block = parse_quote!({ (#x)?; });
                            if let Some(b) = self.loop_block(&c.inputs[0].clone(), &m.receiver.clone(), body, "T") {
                                self.notes.insert("collect::<Result<Vec<_>, _>>()? and try_for_each(..)? return at the first error (their definition)".into());
                                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // assign_*(|| annotation, .., || value): the annotation has no influence on values
            let n = m.method.to_string();
            if (n.starts_with("assign_") || n == "copy_advice") && m.args.len() >= 3 {
                let unary = |x: &Expr| match strip_paren(x) {
                    Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
                    _ => None,
                };
                if unary(&m.args[0]).is_some() {
                    let mut a: Vec<Expr> = m.args.iter().skip(1).cloned().collect();
                    let k = a.len() - 1;
                    if let Some(v) = unary(&a[k]) {
                        a[k] = v;
                    }
                    m.args = a.into_iter().collect();
                    self.notes.insert("annotations of assigned cells are dropped; the value closure || v is the value v".into());
                }
            }
            // Option::map / unwrap_or_else of a named value, as the match that defines it
            if n == "unwrap_or_else" && m.args.len() == 1 {
                if let (Expr::MethodCall(m2), Expr::Closure(d)) = (strip_paren(&m.receiver), strip_paren(&m.args[0])) {
                    if let (Some(o), Some(Expr::Closure(c))) = (path_ident(&m2.receiver), m2.args.first().map(strip_paren)) {
                        if m2.method == "map" && self.options.contains(&o) && c.inputs.len() == 1 && d.inputs.is_empty() {
                            let (r, b, z) = (&m2.receiver, &c.body, &d.body);
                            let (mut binds, mut subst) = (vec![], vec![]);
                            if self.bind(&c.inputs[0].clone(), Elem::Place(parse_quote!(x__), Kind::Ref), &mut binds, &mut subst).is_some() && subst.is_empty() {
                                *e = parse_quote!(match #r { Some(x__) => { #(#binds)* #b } None => #z });
                                self.notes.insert("Option::map(f).unwrap_or_else(g) written as the match that defines it".into());
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
            if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let (Some(n), Expr::Path(f)) = (path_ident(&m.receiver).and_then(|n| self.arrays.get(&n).cloned()), strip_paren(&m.args[0])) {
                    let r = &m.receiver;
                    let v: Vec<Expr> = (0..n).map(|k| parse_quote!(#f(#r[#k]))).collect();
                    self.notes.insert("<[_; N]>::map(f) written as the array of the f(x[k])".into());
                    *e = parse_quote!([#(#v),*]);
                    self.visit_expr_mut(e);
                    return;
                }
            }
            }
        }
        if let Expr::Loop(l) = e {
            let mut bv = BreakValue { k: self.breaks, found: false, depth: 0 };
            let mut body = l.body.clone();
            bv.visit_block_mut(&mut body);
            if bv.found {
                self.notes.insert("`break value` of a loop written through an Option variable".into());
                let b = id(&format!("b{}__", self.breaks));
                self.breaks += 1;
                *e = match self.types.get(&b.to_string()).and_then(|t| parse_str::<Type>(t).ok()) {
                    Some(t) => parse_quote!({ let mut #b: Option<#t> = None; loop #body #b.unwrap() }),
                    None => parse_quote!({ let mut #b = None; loop #body #b.unwrap() }),
                };
                self.visit_expr_mut(e);
                return;
            }
        }
        if matches!(e, Expr::While(_) | Expr::Loop(_)) {
            let k = self.loops;
            self.loops += 1;
            let m = match e {
                Expr::While(w) => modified(&w.body),
                Expr::Loop(w) => modified(&w.body),
                _ => String::new(),
            };
            self.shape.push_str(&format!("{}{m}{{", if matches!(e, Expr::While(_)) { "W" } else { "L" }));
            match e {
                Expr::While(w) => {
                    self.visit_expr_mut(&mut w.cond);
                    self.user_loop(&mut w.body, k)
                }
                Expr::Loop(w) => self.user_loop(&mut w.body, k),
                _ => {}
            }
            self.shape.push('}');
            return;
        }
        if let Expr::Assign(a) = e {
            // *x.get_mut(i).unwrap() = v
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*a.left {
                if let Expr::MethodCall(m) = strip_paren(expr) {
                    if let Expr::MethodCall(g) = strip_paren(&m.receiver) {
                        if m.method == "unwrap" && g.method == "get_mut" && g.args.len() == 1 {
                            let (x, i) = (&g.receiver, &g.args[0]);
                            self.notes.insert("*x.get_mut(i).unwrap() = v written x[i] = v".into());
                            a.left = Box::new(parse_quote!(#x[#i]));
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if matches!(name.as_str(), "sort_unstable" | "dedup" | "rotate_left" | "as_mut") {
                let f = id(&format!("std_{name}"));
                let (x, a) = (&m.receiver, &m.args);
                self.notes.insert(format!("{name}: called as std_{name} (assumed contract)"));
                *e = if a.is_empty() { parse_quote!(#f(&mut #x)) } else { parse_quote!(#f(&mut #x, #a)) };
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("bitarr") {
                // bitarr![u8, Msb0; 1; N]: N bits, all set
                let t: Vec<String> = m.mac.tokens.to_string().split(';').map(|x| x.trim().to_string()).collect();
                if t.len() == 3 && (t[1] == "0" || t[1] == "1") {
                    if let Ok(n) = parse_str::<Expr>(&t[2]) {
                        let v: Expr = if t[1] == "1" { parse_quote!(true) } else { parse_quote!(false) };
                        self.notes.insert("bitvec arrays (BitArr!, bitarr!) read as arrays of bool".into());
                        *e = parse_quote!([#v; #n]);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_paren(&m.args[0]).clone() {
                    if c.inputs.len() == 1 {
                        let body: Block = match &*c.body {
                            Expr::Block(b) => b.block.clone(),
                            x => parse_quote!({ #x; }),
                        };
                        if let Some(b) = self.loop_block(&c.inputs[0].clone(), &m.receiver.clone(), body, "F") {
                            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                            return;
                        }
                    }
                }
            }
            if self.callbacks.contains(&name) && m.args.len() == 2 {
                if let (Expr::Closure(c), Some(r)) = (strip_paren(&m.args[1]).clone(), path_ident(&m.receiver)) {
                    if let (1, Some(Pat::Ident(p))) = (c.inputs.len(), c.inputs.first()) {
                        let mut f = Returns(false);
                        f.visit_expr(&c.body);
                        if !f.0 {
                            let mut body = (*c.body).clone();
                            RenameIdent { from: p.ident.to_string(), to: id(&r) }.visit_expr_mut(&mut body);
                            let (r, k, g) = (id(&r), self.called, id(&format!("g{}__", self.called)));
                            self.called += 1;
                            let (m1, m2) = (mark(&format!("before-callback {k}")), mark(&format!("after-callback {k}")));
                            let meth = &m.method;
                            self.visit_expr_mut(&mut body);
                            self.notes.insert(format!("{name}(name, |meta| body): the body is evaluated on the receiver itself, the name is dropped"));
                            *e = parse_quote!({ let #g = #body; #m1 #r.#meth(#g); #m2 });
                            return;
                        }
                    }
                }
            }
            if name == "map" && m.args.len() == 1 {
                // [_; N].map(|_| e): N evaluations of e
                if let (Expr::Repeat(r), Expr::Closure(c)) = (strip_paren(&m.receiver), strip_paren(&m.args[0])) {
                    if let (Expr::Lit(ExprLit { lit: Lit::Int(n), .. }), Expr::Lit(_), 1, Some(Pat::Wild(_))) = (&*r.len, &*r.expr, c.inputs.len(), c.inputs.first()) {
                        if let Ok(n) = n.base10_parse::<usize>() {
                            let b = vec![(*c.body).clone(); n];
                            self.notes.insert("[_; N].map(|_| e) written as the array of N evaluations of e".into());
                            *e = parse_quote!([#(#b),*]);
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            if name == "fold" && m.args.len() == 2 {
                if let Expr::Closure(c) = strip_paren(&m.args[1]).clone() {
                    if let Some(x) = self.fold(&m.receiver.clone(), &m.args[0].clone(), &c) {
                        *e = x;
                        return;
                    }
                }
            }
            if name == "collect" && m.args.is_empty() {
                if let Some(x) = self.successors(&m.receiver.clone()) {
                    *e = x;
                    return;
                }
                let v = id(&format!("v{}__", self.loops));
                let x = id("x__");
                let body: Block = parse_quote!({ #v.push(#x); });
                let save = (self.loops, self.shape.clone());
                let pat: Pat = parse_quote!(#x);
                if let Some(b) = self.loop_block(&pat, &m.receiver.clone(), body, "C") {
                    let st = &b.stmts;
                    *e = parse_quote!({ let mut #v = Vec::new(); #(#st)* #v });
                    return;
                }
                self.loops = save.0;
                self.shape = save.1;
            }
            if name == "unwrap" || name == "expect" {
                if let Expr::MethodCall(m2) = strip_paren(&m.receiver) {
                    if m2.method == "reduce" && m2.args.len() == 1 {
                        if let Expr::Closure(c) = strip_paren(&m2.args[0]).clone() {
                            if let (2, Some(Pat::Ident(_))) = (c.inputs.len(), c.inputs.first()) {
                                let (a, b, body) = (&c.inputs[0], &c.inputs[1], &c.body);
                                let o = id(&format!("r{}__", self.loops));
                                let f: ExprClosure = parse_quote!(|#o, y__| match #o { None => Some(y__), Some(#a) => Some({ let #b = y__; #body }) });
                                if let Some(x) = self.fold(&m2.receiver.clone(), &parse_quote!(None), &f) {
                                    self.notes.insert("Iterator::reduce(f) written as the fold over an Option that defines it".into());
                                    *e = parse_quote!(#x.unwrap());
                                    return;
                                }
                            }
                        }
                    }
                    if m2.method == "try_into" {
                        let mut r = (*m2.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        self.notes.insert("Vec::try_into::<[_; N]>().unwrap(): vec_to_array (assumed contract)".into());
                        *e = parse_quote!(vec_to_array(#r));
                        return;
                    }
                }
            }
            if name == "and_then" && self.result_map && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_paren(&m.args[0]).clone() {
                    if c.inputs.len() == 1 {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        *e = parse_quote!(match #r { Ok(#p) => #b, Err(e__) => Err(e__) });
                        self.notes.insert("Result::and_then(closure) written as the match that defines it".into());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "map" && self.result_map && m.args.len() == 1 && !path_ident(&m.receiver).map_or(false, |n| self.options.contains(&n)) {
                if let Expr::Closure(c) = strip_paren(&m.args[0]).clone() {
                    if c.inputs.len() == 1 {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        *e = parse_quote!(match #r { Ok(#p) => Ok(#b), Err(e__) => Err(e__) });
                        self.notes.insert("Result::map(closure) written as the match that defines it".into());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "get_or_init" && m.args.len() == 1 {
                let f = m.args[0].clone();
                self.notes.insert("OnceCell::get_or_init(f): f() (an earlier result of the same f satisfies the same contract)".into());
                match strip_paren(&f) {
                    Expr::Closure(c) if c.inputs.is_empty() => *e = (*c.body).clone(),
                    _ => *e = parse_quote!(#f()),
                }
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            match n.as_str() {
                "assert_eq" | "debug_assert_eq" => {
                    if let Some(a) = mac_args(&m.mac) {
                        let (x, y) = (&a[0], &a[1]);
                        *e = parse_quote!(assert!(#x == #y));
                    }
                }
                "assert_ne" | "debug_assert_ne" => {
                    if let Some(a) = mac_args(&m.mac) {
                        let (x, y) = (&a[0], &a[1]);
                        *e = parse_quote!(assert!(#x != #y));
                    }
                }
                "assert" | "debug_assert" => {
                    if let Some(a) = mac_args(&m.mac) {
                        let x = &a[0];
                        *e = parse_quote!(assert!(#x));
                    }
                }
                _ => {}
            }
            if self.refuses {
                if let Expr::Macro(m) = e {
                    if m.mac.path.is_ident("assert") {
                        if let Some(a) = mac_args(&m.mac) {
                            // a refusal: the call does not return
                            let mut x = a[0].clone();
                            self.visit_expr_mut(&mut x);
                            let mk = mark(&format!("refuse {}", self.refusals));
                            self.refusals += 1;
                            *e = parse_quote!(if !(#x) { #mk refuse(); });
                        }
                    }
                }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        norm_path(p);
    }
}

/// crate::a::b::Name -> Name: all extracted items live in one module
pub fn norm_path(p: &mut Path) {
    let keep_from = {
        let n = p.segments.len();
        let mut k = 0;
        while k + 1 < n {
            let s = p.segments[k].ident.to_string();
            let lower = s.chars().next().map_or(false, |c| c.is_lowercase());
            let next_iter = s == "iter";
            if lower && !next_iter && p.segments[k].arguments.is_empty() && !is_prim(&s) {
                k += 1
            } else {
                break;
            }
        }
        k
    };
    if keep_from > 0 || p.leading_colon.is_some() {
        p.segments = p.segments.iter().skip(keep_from).cloned().collect();
        p.leading_colon = None;
    }
}
fn is_prim(s: &str) -> bool {
    ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "bool"].contains(&s)
}

impl Fun {
    fn user_loop(&mut self, b: &mut Block, k: usize) {
        visit_mut::visit_block_mut(self, b);
        self.visit_stmts(&mut b.stmts);
        let spec = format!("loop {k}");
        let (m1, m2) = (mark(&format!("loop-begin {k}")), mark(&format!("loop-end {k}")));
        if let Some(Stmt::Expr(_, t @ None)) = b.stmts.last_mut() {
            *t = Some(Default::default());
        }
        b.stmts.insert(0, m1);
        b.stmts.insert(0, parse_quote!(__vx_spec!(#spec);));
        b.stmts.push(m2);
    }
    /// iter::successors(first, |n| next).take(k).collect()
    fn successors(&mut self, recv: &Expr) -> Option<Expr> {
        let Expr::MethodCall(t) = strip_paren(recv) else { return None };
        if t.method != "take" || t.args.len() != 1 {
            return None;
        }
        let Expr::Call(c) = strip_paren(&t.receiver) else { return None };
        let Expr::Path(p) = &*c.func else { return None };
        if p.path.segments.last()?.ident != "successors" || c.args.len() != 2 {
            return None;
        }
        let Expr::Closure(cl) = strip_paren(&c.args[1]) else { return None };
        if cl.inputs.len() != 1 {
            return None;
        }
        let k = self.loops;
        self.loops += 1;
        let (i, n, v, s, x) = (id(&format!("i{k}__")), id(&format!("n{k}__")), id(&format!("v{k}__")), id(&format!("s{k}__")), id("x__"));
        let (first, count, pat) = (&c.args[0], &t.args[0], &cl.inputs[0]);
        let mut body = (*cl.body).clone();
        self.shape.push_str("S{");
        self.visit_expr_mut(&mut body);
        self.shape.push('}');
        let (m0, m1, m2, m3) = (mark(&format!("before-loop {k}")), mark(&format!("loop-begin {k}")), mark(&format!("loop-end {k}")), mark(&format!("after-loop {k}")));
        let spec = format!("loop {k}");
        self.notes.insert("iter::successors(..).take(k).collect() written as a while loop (its definition)".into());
        Some(parse_quote!({
            let mut #v = Vec::new();
            let mut #s = #first;
            let mut #i: usize = 0;
            let #n: usize = #count;
            #m0
            while #i < #n && #s.is_some() {
                __vx_spec!(#spec);
                #i = #i + 1;
                #m1
                let #x = #s.unwrap();
                let #pat = &#x;
                #s = #body;
                #v.push(#x);
                #m2
            }
            #m3
            #v
        }))
    }
    fn fold(&mut self, recv: &Expr, init: &Expr, c: &ExprClosure) -> Option<Expr> {
        if c.inputs.len() != 2 {
            return None;
        }
        let acc = match &c.inputs[0] {
            Pat::Ident(i) => i.ident.clone(),
            _ => return None,
        };
        let body: Block = match &*c.body {
            Expr::Block(b) => b.block.clone(),
            x => parse_quote!({ #x }),
        };
        // a mutable reference threaded through unchanged
        if path_ident(init).as_deref() == Some(&acc.to_string()) {
            if let Some(Stmt::Expr(t, None)) = body.stmts.last() {
                if path_ident(t).as_deref() == Some(&acc.to_string()) {
                    let mut b2 = body.clone();
                    b2.stmts.pop();
                    let b = self.loop_block(&c.inputs[1].clone(), recv, b2, "F")?;
                    // closure application introduced by the substitution
                    let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                    let lifted = self.lifted.clone();
                    let (outer, gen) = (self.outer.clone(), self.generics.clone());
                    RenameCalls { lifted: &lifted, outer: &outer, generics: &gen }.visit_expr_mut(&mut e);
                    return Some(e);
                }
            }
        }
        let b2: Block = parse_quote!({ #acc = #body; });
        let b = self.loop_block(&c.inputs[1].clone(), recv, b2, "F")?;
        let st = &b.stmts;
        Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
    }
}

/// `break v` of the loop itself -> { b = Some(v); break; }
struct BreakValue {
    k: usize,
    found: bool,
    depth: usize,
}
impl VisitMut for BreakValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let nested = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
        if matches!(e, Expr::Closure(_)) {
            return;
        }
        if nested {
            self.depth += 1;
        }
        visit_mut::visit_expr_mut(self, e);
        if nested {
            self.depth -= 1;
        }
        if let Expr::Break(b) = e {
            if let (Some(v), None, 0) = (&b.expr, &b.label, self.depth) {
                let n = id(&format!("b{}__", self.k));
                self.found = true;
                *e = parse_quote!({ #n = Some(#v); break; });
            }
        }
    }
}
pub fn tokens<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// the variables declared outside a loop body that the body assigns (the variables a loop invariant must speak of)
fn modified(b: &Block) -> String {
    format!("({})", modified_names(b).join(","))
}
pub fn modified_names(b: &Block) -> Vec<String> {
    #[derive(Default)]
    struct M {
        set: std::collections::BTreeSet<String>,
        own: std::collections::BTreeSet<String>,
    }
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base),
            Expr::Index(i) => root(&i.expr),
            Expr::Unary(u) => root(&u.expr),
            Expr::Paren(p) => root(&p.expr),
            Expr::MethodCall(m) => root(&m.receiver),
            Expr::Reference(r) => root(&r.expr),
            _ => None,
        }
    }
    impl<'a> syn::visit::Visit<'a> for M {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
            self.set.extend(root(&a.left));
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
            if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
                | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) {
                self.set.extend(root(&a.left));
            }
            syn::visit::visit_expr_binary(self, a);
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if r.mutability.is_some() {
                self.set.extend(root(&r.expr));
            }
            syn::visit::visit_expr_reference(self, r);
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.own.insert(p.ident.to_string());
        }
    }
    let mut m = M::default();
    syn::visit::Visit::visit_block(&mut m, b);
    m.set.difference(&m.own).cloned().collect()
}

struct Returns(bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
}
struct RenameIdent {
    from: String,
    to: Ident,
}
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = self.to.clone();
        }
    }
}

/// break or continue of the loop itself
struct Breaks(bool);
impl<'a> Visit<'a> for Breaks {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
}
impl Fun {
    /// `let it = a.iter().zip(..);` is taken where `it` is used
    fn bound_iterators(&mut self, b: &mut Block) {
        struct V<'a> {
            muts: BTreeSet<String>,
            found: &'a mut BTreeMap<String, Expr>,
            arrays: &'a mut BTreeMap<String, usize>,
        }
        fn pipeline(e: &Expr, known: &BTreeMap<String, Expr>) -> bool {
            match strip_paren(e) {
                Expr::MethodCall(m) => match m.method.to_string().as_str() {
                    "iter" | "into_iter" => m.args.is_empty(),
                    "map" | "chain" | "take" | "skip" | "zip" | "enumerate" | "copied" | "cloned" | "rev" => pipeline(&m.receiver, known),
                    _ => false,
                },
                Expr::Path(_) => path_ident(e).map_or(false, |n| known.contains_key(&n)),
                _ => false,
            }
        }
        impl VisitMut for V<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut keep = vec![];
                for s in b.stmts.drain(..) {
                    if let Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &s {
                        if i.mutability.is_none() && matches!(strip_paren(expr), Expr::MethodCall(_)) && pipeline(expr, self.found) {
                            let mut f = Free { names: BTreeSet::new() };
                            f.visit_expr(expr);
                            if f.names.is_disjoint(&self.muts) {
                                self.found.insert(i.ident.to_string(), (**expr).clone());
                                continue;
                            }
                        }
                    }
                    if let Stmt::Local(Local { pat: Pat::Type(t), .. }) = &s {
                        if let (Pat::Ident(i), Type::Array(a)) = (&*t.pat, &*t.ty) {
                            if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &a.len {
                                self.arrays.insert(i.ident.to_string(), n.base10_parse().unwrap_or(0));
                            }
                        }
                    }
                    keep.push(s);
                }
                b.stmts = keep;
                visit_mut::visit_block_mut(self, b);
            }
        }
        struct Muts(BTreeSet<String>);
        impl<'a> Visit<'a> for Muts {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                if p.mutability.is_some() {
                    self.0.insert(p.ident.to_string());
                }
            }
        }
        let mut m = Muts(Default::default());
        m.visit_block(b);
        let mut v = V { muts: m.0, found: &mut self.iters, arrays: &mut self.arrays };
        v.visit_block_mut(b);
        if !self.iters.is_empty() {
            self.notes.insert("an iterator bound by let is written where it is used (its sources are not mutated in between)".into());
        }
    }
}

/// array literals whose slice is taken: named, so that they live as long as the loop
struct Temps<'a, 'b>(&'a mut Fun, &'b mut Vec<Stmt>);
impl VisitMut for Temps<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "as_slice" && matches!(&*m.receiver, Expr::Array(_)) {
                *m.receiver = self.0.hoist(&m.receiver.clone(), self.1);
            }
        }
    }
}
