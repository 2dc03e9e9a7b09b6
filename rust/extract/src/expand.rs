//! Straight-line expansion of the small helpers circuit code is written with (`//@ opt expand`): functions of the source
//! that are handed a closure are replaced by their bodies, local closures by theirs, and pipelines and loops over ranges
//! between literals are written out.
use crate::desugar::tokens;
use quote::quote;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    /// `self` included
    pub params: Vec<String>,
    pub generics: Vec<String>,
    /// T of a parameter `impl FnX(..) -> Result<T, E>`
    pub gives: Vec<Option<Type>>,
    pub body: Block,
}
/// T of `impl FnX(..) -> Result<T, E>`
pub fn gives(t: &Type) -> Option<Type> {
    let Type::ImplTrait(i) = t else { return None };
    i.bounds.iter().find_map(|b| match b {
        TypeParamBound::Trait(t) => match &t.path.segments.last()?.arguments {
            PathArguments::Parenthesized(p) => match &p.output {
                ReturnType::Type(_, r) => match &**r {
                    Type::Path(q) if q.path.segments.last()?.ident == "Result" => match &q.path.segments.last()?.arguments {
                        PathArguments::AngleBracketed(a) => match a.args.first()? {
                            GenericArgument::Type(t) => Some(t.clone()),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        },
        _ => None,
    })
}
pub struct Expand<'a> {
    pub helpers: &'a BTreeMap<String, Helper>,
    /// modules whose functions keep the module in their name
    pub spaces: &'a BTreeSet<String>,
    pub k: usize,
    pub notes: BTreeSet<String>,
    /// loops are kept (pipelines are still written out)
    pub keep_loops: bool,
    pub lost: Vec<String>,
    /// the call is the last thing the function does
    last: bool,
    pre: Vec<Stmt>,
    /// constants of the file
    pub consts: BTreeMap<String, LitInt>,
    /// arrays whose loops are written out: length, and whether elements are copied
    pub arrays: BTreeMap<String, (usize, bool)>,
}

fn id(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}
fn plain(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => plain(&p.expr),
        _ => None,
    }
}
fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        Expr::Group(p) => bare(&p.expr),
        _ => e,
    }
}
/// variables only: not fields, methods or types
struct Rename {
    map: BTreeMap<String, Expr>,
}
impl VisitMut for Rename {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(to) = plain(e).and_then(|n| self.map.get(&n)) {
            *e = to.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(Expr::Path(x)) = self.map.get(&p.ident.to_string()) {
            if let Some(i) = x.path.get_ident() {
                p.ident = i.clone();
            }
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for e in v.iter_mut() {
                self.visit_expr_mut(e);
            }
            m.tokens = quote!(#v);
        }
    }
}
struct Locals(BTreeSet<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
/// leaves the surrounding function or loop
struct Leaves {
    ret: bool,
    tries: bool,
    brk: bool,
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tries = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.brk = true;
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.brk = true;
    }
}
fn leaves(e: &Expr) -> Leaves {
    let mut l = Leaves { ret: false, tries: false, brk: false };
    l.visit_expr(e);
    l
}
/// calls of a closure in its scope
struct Calls<'a> {
    name: &'a str,
    closure: &'a ExprClosure,
    k: usize,
    /// the type of the value, where it is known
    gives: Option<Type>,
}
impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // CALL? of a closure that ends in Ok(v): v
        if let Expr::Try(t) = &*e {
            if let Expr::Call(c) = bare(&t.expr) {
                if plain(&c.func).as_deref() == Some(self.name) && c.args.len() == self.closure.inputs.len() {
                    if let Some(b) = crate::layouter::inside(self.closure) {
                        let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                        for x in a.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        let mut f = self.closure.clone();
                        f.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                        *e = applied(&f, &a, &mut self.k);
                        if let Some(t) = &self.gives {
                            let x = id(&format!("g{}__", self.k));
                            self.k += 1;
                            *e = parse_quote!({ let #x: #t = #e; #x });
                        }
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // handed on by its name
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 && plain(&m.args[0]).as_deref() == Some(self.name) {
                m.args[0] = Expr::Closure(self.closure.clone());
            }
        }
        if let Expr::Call(c) = e {
            if plain(&c.func).as_deref() == Some(self.name) && c.args.len() == self.closure.inputs.len() {
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                *e = applied(self.closure, &a, &mut self.k);
            }
        }
    }
}
struct Tried<'a> {
    name: &'a str,
    calls: usize,
    tried: usize,
}
impl<'a> Visit<'a> for Tried<'_> {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        self.calls += (plain(&c.func).as_deref() == Some(self.name)) as usize;
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tried += matches!(bare(&t.expr), Expr::Call(c) if plain(&c.func).as_deref() == Some(self.name)) as usize;
        visit::visit_expr_try(self, t);
    }
}
/// the body of a closure with its parameters bound
fn applied(c: &ExprClosure, args: &[Expr], k: &mut usize) -> Expr {
    let mut body = (*c.body).clone();
    let mut pre: Vec<Stmt> = vec![];
    let mut binds: Vec<Stmt> = vec![];
    for (p, a) in c.inputs.iter().zip(args) {
        if matches!(p, Pat::Wild(_)) && plain(a).is_some() {
            continue;
        }
        let name = match p {
            Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => Some(p.ident.to_string()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => Some(p.ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        let mut own = Locals(Default::default());
        own.visit_expr(&body);
        match (name, plain(a).filter(|a| !own.0.contains(a))) {
            (Some(n), Some(_)) if !own.0.contains(&n) => Rename { map: [(n, a.clone())].into_iter().collect() }.visit_expr_mut(&mut body),
            _ => {
                let t = id(&format!("x{}__", *k));
                *k += 1;
                pre.push(parse_quote!(let #t = #a;));
                binds.push(parse_quote!(let #p = #t;));
            }
        }
    }
    let st: Vec<Stmt> = match body {
        Expr::Block(b) if b.label.is_none() => b.block.stmts,
        x => vec![Stmt::Expr(x, None)],
    };
    if pre.is_empty() && st.len() == 1 {
        if let Stmt::Expr(x, None) = &st[0] {
            return parse_quote!((#x));
        }
    }
    parse_quote!({ #(#pre)* #(#binds)* #(#st)* })
}
/// literal range, as its values
fn literal_range(e: &Expr, consts: &BTreeMap<String, LitInt>) -> Option<Vec<Expr>> {
    let Expr::Range(r) = bare(e) else { return None };
    let lit = |e: &Option<Box<Expr>>| -> Option<(i64, String)> {
        match bare(e.as_deref()?) {
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => Some((n.base10_parse().ok()?, n.suffix().to_string())),
            Expr::Path(p) => consts.get(&p.path.get_ident()?.to_string()).and_then(|n| Some((n.base10_parse().ok()?, n.suffix().to_string()))),
            _ => None,
        }
    };
    let (a, s) = lit(&r.start)?;
    let (b, t) = lit(&r.end)?;
    let b = if matches!(r.limits, RangeLimits::Closed(_)) { b + 1 } else { b };
    if b - a > 16 {
        return None;
    }
    let suf = if s.is_empty() { t } else { s };
    Some((a..b).map(|v| { let l = LitInt::new(&format!("{v}{suf}"), proc_macro2::Span::call_site()); parse_quote!(#l) }).collect())
}
impl<'a> Expand<'a> {
    pub fn new(helpers: &'a BTreeMap<String, Helper>, spaces: &'a BTreeSet<String>, keep_loops: bool) -> Self {
        Expand { helpers, spaces, k: 0, notes: Default::default(), keep_loops, lost: vec![], last: false, pre: vec![], consts: Default::default(), arrays: Default::default() }
    }
    fn elements(&mut self, e: &Expr) -> Option<Vec<Expr>> {
        let n = self.pre.len();
        let r = self.elements_(e);
        if r.is_none() {
            self.pre.truncate(n);
        }
        r
    }
    /// the elements of a pipeline over a literal range
    fn elements_(&mut self, e: &Expr) -> Option<Vec<Expr>> {
        if let Some(v) = literal_range(e, &self.consts) {
            return Some(v);
        }
        let (x, by_ref) = match bare(e) {
            Expr::Reference(r) if r.mutability.is_none() => (bare(&r.expr), true),
            x => (x, false),
        };
        if let Some((n, copy)) = self.arrays.get(&tokens(x).replace(' ', "")).cloned() {
            // the length is checked by the type; a call is evaluated once
            let mut y = x.clone();
            if !matches!(x, Expr::Path(_) | Expr::Field(_)) {
                let z = id(&format!("z{}__", self.k));
                self.k += 1;
                self.pre.push(parse_quote!(let #z = #x;));
                y = parse_quote!(#z);
            }
            let x = &y;
            return Some((0..n).map(|k| if copy && !by_ref { parse_quote!(sized::<_, #n>(&#x)[#k]) } else { parse_quote!(&sized::<_, #n>(&#x)[#k]) }).collect());
        }
        if let Expr::MethodCall(m) = bare(e) {
            if (m.method == "into_iter" || m.method == "iter") && m.args.is_empty() {
                return self.elements(&m.receiver);
            }
            if m.method == "enumerate" && m.args.is_empty() {
                return Some(self.elements(&m.receiver)?.iter().enumerate().map(|(k, x)| parse_quote!((#k, #x))).collect());
            }
            if m.method == "zip" && m.args.len() == 1 {
                let (a, b) = (self.elements(&m.receiver)?, self.elements(&m.args[0])?);
                return Some(a.iter().zip(&b).map(|(a, b)| parse_quote!((#a, #b))).collect());
            }
            if m.method == "map" && m.args.len() == 1 {
                if let Expr::Closure(c) = bare(&m.args[0]) {
                    if c.inputs.len() == 1 && !leaves(&c.body).ret && !leaves(&c.body).tries {
                        let c = c.clone();
                        let v = self.elements(&m.receiver)?;
                        return Some(v.iter().map(|x| {
                            let p = &c.inputs[0];
                            let b = &c.body;
                            if let (Pat::Ident(p), Expr::Lit(_)) = (p, x) {
                                let mut b = (**b).clone();
                                let mut l = Locals(Default::default());
                                l.visit_expr(&b);
                                if !l.0.contains(&p.ident.to_string()) {
                                    Rename { map: [(p.ident.to_string(), x.clone())].into_iter().collect() }.visit_expr_mut(&mut b);
                                    return b;
                                }
                            }
                            parse_quote!({ let #p = #x; #b })
                        }).collect());
                    }
                }
            }
        }
        None
    }
    /// a helper's body with its parameters bound
    fn inlined(&mut self, name: &str, h: &Helper, args: &[Expr]) -> Option<Expr> {
        if h.params.len() != args.len() {
            return None;
        }
        let mut body = h.body.clone();
        let l = leaves(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: body.clone() }));
        if l.ret || (l.tries && !self.last) {
            return None;
        }
        self.k += 1;
        let k = self.k;
        let mut locals = Locals(Default::default());
        locals.visit_block(&body);
        let mut map: BTreeMap<String, Expr> = locals.0.iter().map(|n| { let i = id(&format!("{n}__{k}")); (n.clone(), parse_quote!(#i)) }).collect();
        let mut pre: Vec<Stmt> = vec![];
        let mut closures = vec![];
        for (j, (p, a)) in h.params.iter().zip(args).enumerate() {
            let i = id(&format!("{}__{k}", if p == "self" { "this" } else { p }));
            match bare(a) {
                Expr::Closure(c) => {
                    map.insert(p.clone(), parse_quote!(#i));
                    closures.push((i.to_string(), c.clone(), h.gives.get(j).cloned().flatten().filter(|t| !h.generics.iter().any(|g| { let mut u = Named(g, false); u.visit_type(t); u.1 }))));
                }
                x if plain(x).is_some() => {
                    map.insert(p.clone(), x.clone());
                }
                x => {
                    let amp = p == "self" && !matches!(x, Expr::Reference(_));
                    pre.push(if amp { parse_quote!(let #i = &#x;) } else { parse_quote!(let #i = #x;) });
                    map.insert(p.clone(), parse_quote!(#i));
                }
            }
        }
        Rename { map }.visit_block_mut(&mut body);
        // types of the helper's own parameters are inferred
        Untype(&h.generics).visit_block_mut(&mut body);
        for (n, c, gives) in &closures {
            let l = leaves(&c.body);
            if l.ret || (l.tries && !self.last) {
                return None;
            }
            // a closure that fails: every call is under `?`
            if l.tries {
                let mut u = Tried { name: n, calls: 0, tried: 0 };
                u.visit_block(&body);
                if u.calls != u.tried {
                    return None;
                }
            }
            let mut v = Calls { name: n, closure: c, k: self.k * 100, gives: gives.clone() };
            v.visit_block_mut(&mut body);
        }
        self.notes.insert(format!("{name} is replaced by its body, the closure it is handed by the closure's"));
        let st = &body.stmts;
        Some(parse_quote!({ #(#pre)* #(#st)* }))
    }
    fn is_pipeline(e: &Expr) -> bool {
        match bare(e) {
            Expr::Range(_) => true,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["iter", "iter_mut", "into_iter", "chunks", "zip", "enumerate", "chain", "skip", "take", "rev", "copied", "cloned", "drain", "windows"].contains(&n.as_str())
                    && !(n == "zip" && !Self::is_pipeline(&m.receiver))
                    || (n == "map" && Self::is_pipeline(&m.receiver))
            }
            Expr::Call(c) => tokens(&c.func).contains("iter"),
            _ => false,
        }
    }
}
struct Untype<'a>(&'a [String]);
impl<'a> VisitMut for Untype<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Type(t) = &l.pat {
            let s = tokens(&t.ty);
            if s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| self.0.iter().any(|g| g == w)) {
                l.pat = (*t.pat).clone();
            }
        }
    }
}
/// whether a type speaks of a name
struct Named<'a>(&'a str, bool);
impl<'a> Visit<'a> for Named<'_> {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.1 |= i == self.0;
    }
}
/// how often a variable is used
struct Uses<'a>(&'a str, usize);
impl<'a> Visit<'a> for Uses<'_> {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        self.1 += p.path.is_ident(self.0) as usize;
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if !binds(c, self.0) {
            visit::visit_expr_closure(self, c);
        }
    }
}
/// the closure has a parameter of that name
fn binds(c: &ExprClosure, n: &str) -> bool {
    let mut own = Locals(Default::default());
    c.inputs.iter().for_each(|p| own.visit_pat(p));
    own.0.contains(n)
}
/// the one use of a variable is replaced
struct Put<'a>(&'a str, &'a Expr);
impl VisitMut for Put<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Closure(c) if binds(c, self.0)) {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
            *e = self.1.clone();
        }
    }
}
impl<'a> Expand<'a> {
    /// `let it = a.iter().zip(..);`, used once: taken where it is used
    fn bound(&mut self, b: &mut Block) {
        fn lazy(e: &Expr) -> bool {
            match bare(e) {
                Expr::MethodCall(m) => match m.method.to_string().as_str() {
                    "iter" | "into_iter" => m.args.is_empty(),
                    "map" | "chain" | "take" | "skip" | "zip" | "enumerate" | "copied" | "cloned" | "rev" => lazy(&m.receiver),
                    _ => false,
                },
                _ => false,
            }
        }
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if p.mutability.is_none() && lazy(expr) => Some((p.ident.to_string(), (**expr).clone())),
                _ => None,
            };
            if let Some((n, e)) = hit {
                let uses = |s: &Stmt| { let mut u = Uses(&n, 0); u.visit_stmt(s); u.1 };
                let at: Vec<usize> = (i + 1..b.stmts.len()).filter(|&k| uses(&b.stmts[k]) > 0).collect();
                if let [k] = at[..] {
                    // nothing it speaks of is bound again on the way
                    let mut again = Locals(Default::default());
                    for s in &b.stmts[i + 1..k] {
                        again.visit_stmt(s);
                    }
                    let clash = again.0.iter().any(|x| x == &n || { let mut u = Uses(x, 0); u.visit_expr(&e); u.1 > 0 });
                    if uses(&b.stmts[k]) == 1 && !clash {
                        Put(&n, &e).visit_stmt_mut(&mut b.stmts[k]);
                        b.stmts.remove(i);
                        self.notes.insert("an iterator bound by `let` and used once is written where it is used".into());
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    /// a helper with closures, called as the last thing: failing in it is failing here
    pub fn last_call(&mut self, b: &mut Block) {
        let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return };
        let Expr::Call(c) = bare(e) else { return };
        let Expr::Path(p) = &*c.func else { return };
        if !c.args.iter().any(|a| matches!(bare(a), Expr::Closure(_))) {
            return;
        }
        let n = p.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        if let Some(h) = self.helpers.get(&n).cloned() {
            self.last = true;
            if let Some(x) = self.inlined(&n, &h, &args) {
                *e = x;
            }
            self.last = false;
        }
    }
    /// `let X: Result<Vec<_>, E> = I.collect();` followed by the one use of X, `X?` or `X.map(|p| v)` at the end, is
    /// `let X = I.collect::<Result<Vec<_>, E>>()?;` followed by `X`, or by `Ok(v)`
    fn collected(&mut self, b: &mut Block) {
        for i in 0..b.stmts.len().saturating_sub(1) {
            let Stmt::Local(Local { pat: Pat::Type(t), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &b.stmts[i] else { continue };
            let (Some(x), ty) = (match &*t.pat { Pat::Ident(p) if p.mutability.is_none() => Some(p.ident.clone()), _ => None }, tokens(&t.ty).replace(' ', "")) else { continue };
            let Expr::MethodCall(m) = bare(expr) else { continue };
            if !ty.starts_with("Result<Vec<") || m.method != "collect" {
                continue;
            }
            let name = x.to_string();
            let uses = |s: &Stmt| { let mut u = Uses(&name, 0); u.visit_stmt(s); u.1 };
            if uses(&b.stmts[i + 1]) != 1 {
                continue;
            }
            let shadow = matches!(&b.stmts[i + 1], Stmt::Local(Local { pat: Pat::Ident(p), .. }) if p.ident == x);
            if !shadow && b.stmts[i + 2..].iter().any(|s| uses(s) > 0) {
                continue;
            }
            let next = match &b.stmts[i + 1] {
                Stmt::Local(l) => match &l.init {
                    Some(LocalInit { expr, diverge: None, .. }) => match bare(expr) {
                        Expr::Try(t) if plain(&t.expr).as_deref() == Some(&name) => {
                            let mut l = l.clone();
                            l.init.as_mut().unwrap().expr = Box::new(parse_quote!(#x));
                            Stmt::Local(l)
                        }
                        _ => continue,
                    },
                    _ => continue,
                },
                Stmt::Expr(e, None) => {
                    // X.map(|p| v), or the value of it
                    let (inner, tried) = match bare(e) { Expr::Try(t) => (bare(&t.expr), true), e => (e, false) };
                    match inner {
                        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && plain(&m.receiver).as_deref() == Some(&name) => match bare(&m.args[0]) {
                            Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body).ret && !leaves(&c.body).tries => {
                                let (p, v) = (&c.inputs[0], &c.body);
                                let v: Expr = if matches!(p, Pat::Ident(p) if p.ident == x) { (**v).clone() } else { parse_quote!({ let #p = #x; #v }) };
                                Stmt::Expr(if tried { v } else { parse_quote!(Ok(#v)) }, None)
                            }
                            _ => continue,
                        },
                        _ => continue,
                    }
                }
                _ => continue,
            };
            let (r, ty) = (&m.receiver, &t.ty);
            b.stmts[i] = parse_quote!(let #x = #r.collect::<#ty>()?;);
            b.stmts[i + 1] = next;
            self.notes.insert("let x: Result<Vec<_>, _> = ..collect(), used once as x? or x.map(..), is ..collect::<Result<Vec<_>, _>>()? where it is bound".into());
        }
    }
}
impl<'a> VisitMut for Expand<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        if n >= 2 && self.spaces.contains(&p.segments[n - 2].ident.to_string()) {
            let mut s = p.segments[n - 1].clone();
            s.ident = id(&format!("{}__{}", p.segments[n - 2].ident, s.ident));
            p.segments = [s].into_iter().collect();
            p.leading_colon = None;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        self.collected(b);
        self.bound(b);
        // local closures: called where they are bound, at their calls
        let mut i = 0;
        while i < b.stmts.len() {
            let hit = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match bare(expr) {
                    Expr::Closure(c) if !leaves(&c.body).ret && c.inputs.iter().all(|p| !matches!(p, Pat::Type(t) if tokens(&t.ty).contains("Region"))) => Some((p.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, c)) = hit {
                b.stmts.remove(i);
                // `?` inside leaves the closure: the same as leaving the function when every call is under `?`
                if leaves(&c.body).tries {
                    let mut u = Tried { name: &n, calls: 0, tried: 0 };
                    for s in b.stmts[i..].iter() {
                        u.visit_stmt(s);
                    }
                    if u.calls != u.tried {
                        self.lost.push(format!("closure {n} fails without failing its function"));
                    }
                }
                for s in b.stmts[i..].iter_mut() {
                    let mut v = Calls { name: &n, closure: &c, k: 1000 + self.k * 100, gives: None };
                    v.visit_stmt_mut(s);
                }
                self.k += 10;
                self.notes.insert("a local closure is replaced by its body where it is called".into());
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // helpers first: their closures are then expanded in place
        let hit: Option<(String, Vec<Expr>)> = match &*e {
            Expr::Call(c) if c.args.iter().any(|a| matches!(bare(a), Expr::Closure(_))) => match &*c.func {
                Expr::Path(p) => Some((p.path.segments.last().unwrap().ident.to_string(), c.args.iter().cloned().collect())),
                _ => None,
            },
            Expr::MethodCall(m) if m.args.len() == 1 && matches!(bare(&m.args[0]), Expr::Closure(_)) && matches!(bare(&m.receiver), Expr::Field(_)) && m.method == "map" => {
                Some((".map".into(), vec![(*m.receiver).clone(), m.args[0].clone()]))
            }
            _ => None,
        };
        if let Some((n, args)) = hit {
            if let Some(h) = self.helpers.get(&n).cloned() {
                if let Some(x) = self.inlined(&n, &h, &args) {
                    *e = x;
                }
            }
        }
        // literal pipelines and loops
        if let Expr::Try(t) = &*e {
            if let Expr::MethodCall(m) = bare(&t.expr) {
                if m.method == "collect" && m.turbofish.as_ref().map_or(false, |t| tokens(t).contains("Result")) {
                    if let Some(v) = self.elements(&m.receiver.clone()) {
                        let u = id(&format!("u{}__", self.k));
                        self.k += 1;
                        self.notes.insert("pipelines and loops over ranges between literals are written out".into());
                        *e = parse_quote!({ let mut #u = Vec::new(); #(#u.push(#v?);)* #u });
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = &*e {
            if m.method == "collect" && !m.turbofish.as_ref().map_or(false, |t| tokens(t).contains("Result")) {
                if let Some(v) = self.elements(&m.receiver.clone()) {
                    self.notes.insert("pipelines and loops over ranges between literals are written out".into());
                    let pre = std::mem::take(&mut self.pre);
                    *e = if pre.is_empty() { parse_quote!(array_to_vec([#(#v),*])) } else { parse_quote!({ #(#pre)* array_to_vec([#(#v),*]) }) };
                }
            } else if m.method == "unwrap" && m.args.is_empty() {
                if let Expr::MethodCall(r) = bare(&m.receiver) {
                    if r.method == "reduce" && r.args.len() == 1 {
                        if let (Expr::Closure(c), Some(v)) = (bare(&r.args[0]).clone(), self.elements(&r.receiver.clone())) {
                            if c.inputs.len() == 2 && !v.is_empty() && !leaves(&c.body).ret && !leaves(&c.body).tries {
                                let (p, q, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                                let mut acc: Expr = v[0].clone();
                                for x in &v[1..] {
                                    acc = parse_quote!({ let #p = #acc; let #q = #x; #b });
                                }
                                self.notes.insert("pipelines and loops over ranges between literals are written out".into());
                                *e = acc;
                            }
                        }
                    }
                }
            }
        }
        if let (Expr::ForLoop(f), false) = (&*e, self.keep_loops) {
            let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
            if !leaves(&b).brk {
                let (p, st) = (f.pat.clone(), f.body.stmts.clone());
                if let Some(v) = self.elements(&f.expr.clone()) {
                    self.notes.insert("pipelines and loops over ranges between literals are written out".into());
                    let all: Vec<Expr> = v.iter().map(|x| parse_quote!({ let #p = #x; #(#st)* })).collect();
                    let pre = std::mem::take(&mut self.pre);
                    *e = parse_quote!({ #(#pre)* #(#all)* });
                }
            }
        }
        // Value::map
        if let Expr::MethodCall(m) = &*e {
            if m.method == "map" && m.args.len() == 1 && !Self::is_pipeline(&m.receiver) {
                if let Expr::Closure(c) = bare(&m.args[0]) {
                    if c.inputs.len() == 1 && !leaves(&c.body).ret && !leaves(&c.body).tries && !matches!(bare(&m.receiver), Expr::Repeat(_) | Expr::Field(_)) {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        let p = match p { Pat::Type(t) => &*t.pat, p => p };
                        self.notes.insert("Value::map is written as a match".into());
                        *e = parse_quote!(match (#r).v { Some(#p) => Value { v: Some(#b) }, None => Value { v: None } });
                    }
                } else if let Expr::Path(p) = bare(&m.args[0]) {
                    if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(char::is_uppercase)) {
                        let (r, p) = (&m.receiver, &p.path);
                        self.notes.insert("Result::map of a constructor is written as a match".into());
                        *e = parse_quote!(match #r { Ok(x__) => Ok(#p(x__)), Err(e__) => Err(e__) });
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
