//! Functions that place regions: `//@ opt layouter`.
//! A closure handed to assign_region / assign_table / assign_regions is run where it is handed over, between
//! opening and closing the region; closures that change what they capture are run twice, as the layouter does.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::desugar::tokens;
use crate::source::squeeze;

struct Each {
    iter: Expr,
    pat: Pat,
    stmts: Vec<Stmt>,
    inner: ExprClosure,
}
pub struct Layouters {
    pub names: Vec<String>,
    defs: BTreeMap<String, (Expr, Pat, Vec<Stmt>, ExprClosure)>,
    pub notes: BTreeSet<String>,
    pub lost: Vec<String>,
}
struct Leaves(bool);
impl VisitMut for Leaves {
    fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
/// `if c { .. return e; } rest` is `if c { .. e } else { rest }`
fn no_early_return(b: &mut Block) {
    let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && matches!(x.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(_), .. }), _))))) else { return };
    let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
    let Some(Stmt::Expr(Expr::If(mut x), _)) = b.stmts.pop() else { return };
    if let Some(Stmt::Expr(Expr::Return(r), _)) = x.then_branch.stmts.pop() {
        x.then_branch.stmts.push(Stmt::Expr(*r.expr.unwrap(), None));
    }
    no_early_return(&mut rest);
    x.else_branch = Some((Default::default(), parse_quote!(#rest)));
    b.stmts.push(Stmt::Expr(Expr::If(x), None));
}
/// `Ok(e)` as e, a choice between such as the choice, anything else under `?`
fn unwrapped(e: &Expr) -> Expr {
    match e {
        Expr::Call(c) if squeeze(&tokens(&c.func)) == "Ok" && c.args.len() == 1 => c.args[0].clone(),
        Expr::If(x) if x.else_branch.is_some() => {
            let mut x = x.clone();
            if let Some(Stmt::Expr(t, None)) = x.then_branch.stmts.last_mut() {
                *t = unwrapped(t);
            }
            let (_, other) = x.else_branch.as_mut().unwrap();
            match &mut **other {
                Expr::Block(b) => {
                    if let Some(Stmt::Expr(t, None)) = b.block.stmts.last_mut() {
                        *t = unwrapped(t);
                    }
                }
                o => *o = unwrapped(o),
            }
            Expr::If(x)
        }
        e => parse_quote!((#e)?),
    }
}
/// the body of a closure that returns a Result, as a block with the value inside
pub fn inside(c: &ExprClosure) -> Option<Block> {
    let mut b: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    };
    no_early_return(&mut b);
    let mut l = Leaves(false);
    l.visit_block_mut(&mut b);
    if l.0 {
        return None;
    }
    match b.stmts.pop()? {
        Stmt::Expr(e, None) => {
            b.stmts.push(Stmt::Expr(unwrapped(&e), None));
            Some(b)
        }
        _ => None,
    }
}
/// what a closure changes of what it captures
fn changes(c: &ExprClosure) -> bool {
    let b: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    };
    let p: BTreeSet<String> = c.inputs.iter().filter_map(param).map(|i| i.to_string()).collect();
    let mut m = Mutators { own: p.clone(), found: false };
    let mut b2 = b.clone();
    m.visit_block_mut(&mut b2);
    m.found || crate::desugar::modified_names(&b).iter().any(|n| !p.contains(n))
}
/// methods that change their receiver
struct Mutators {
    own: BTreeSet<String>,
    found: bool,
}
impl VisitMut for Mutators {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.own.insert(p.ident.to_string());
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        const CHANGE: [&str; 21] = ["push", "push_back", "pop", "extend", "insert", "append", "clear", "truncate", "resize", "drain", "remove", "retain", "swap", "sort", "dedup", "take", "replace", "next", "set", "reverse", "fill"];
        if CHANGE.contains(&m.method.to_string().as_str()) {
            if let Expr::Path(p) = &*m.receiver {
                self.found |= p.path.get_ident().map_or(false, |i| !self.own.contains(&i.to_string()));
            } else {
                self.found |= matches!(&*m.receiver, Expr::Field(_));
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}
fn param(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Type(t) => param(&t.pat),
        Pat::Ident(i) => Some(i.ident.clone()),
        _ => None,
    }
}
impl Layouters {
    pub fn new(names: Vec<String>) -> Self {
        Layouters { names, defs: Default::default(), notes: Default::default(), lost: vec![] }
    }
    fn is_layouter(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())))
    }
    /// L.assign_xxx(|| name, f) as the block that places what f does
    fn placing(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) if self.is_layouter(&m.receiver) && m.args.len() == 2 => m,
            _ => return None,
        };
        let l = &m.receiver;
        let mut out: Option<Expr> = None;
        match (m.method.to_string().as_str(), &m.args[1]) {
            (k @ ("assign_region" | "assign_table"), Expr::Closure(c)) if c.inputs.len() == 1 => {
                let (region, body) = (param(&c.inputs[0])?, inside(c)?);
                let (open, close): (Ident, Ident) = if k == "assign_region" { (parse_quote!(open), parse_quote!(close)) } else { (parse_quote!(open_table), parse_quote!(close_table)) };
                self.notes.insert("Layouter::assign_region / assign_table: the closure is run in place, on a fresh region".into());
                if changes(c) {
                    if k == "assign_table" {
                        return None;
                    }
                    out = Some(parse_quote!({ { let mut #region = #l.shape(); let first__ = #body; #l.close_shape(#region); } let mut #region = #l.open(); let placed__ = #body; #l.close(#region); placed__ }));
                } else {
                    out = Some(parse_quote!({ let mut #region = #l.#open(); let placed__ = #body; #l.#close(#region); placed__ }));
                }
            }
            ("assign_regions", Expr::Path(p)) => {
                let n = p.path.get_ident()?.to_string();
                let (iter, pat, stmts, inner) = self.defs.remove(&n)?;
                if inner.inputs.len() != 1 {
                    return None;
                }
                let (region, body) = (param(&inner.inputs[0])?, inside(&inner)?);
                self.notes.insert("Layouter::assign_regions: each closure is run twice in place (first pass, then assignment), each on a fresh region; the first pass of one region is not interleaved with the others".into());
                // the type the closure says it returns
                let ty: Type = match &inner.output {
                    ReturnType::Type(_, t) => match &**t {
                        Type::Path(p) => match &p.path.segments.last()?.arguments {
                            PathArguments::AngleBracketed(a) => match a.args.first()? {
                                GenericArgument::Type(t) => t.clone(),
                                _ => return None,
                            },
                            _ => return None,
                        },
                        _ => return None,
                    },
                    _ => parse_quote!(_),
                };
                out = Some(parse_quote!({
                    let mut placed__ = Vec::new();
                    for #pat in #iter {
                        #(#stmts)*
                        { let mut #region = #l.shape(); let first__: #ty = #body; #l.close_shape(#region); }
                        let mut #region = #l.open();
                        let one__: #ty = #body;
                        #l.close(#region);
                        placed__.push(one__);
                    }
                    placed__
                }));
            }
            _ => {}
        }
        out
    }
    /// let NAME = ITER.map(|p| { stmts; move |region| body }).collect()
    fn definition(&self, s: &Stmt) -> Option<(String, Each)> {
        let l = match s {
            Stmt::Local(l) => l,
            _ => return None,
        };
        let n = param(&l.pat)?.to_string();
        let m = match &*l.init.as_ref()?.expr {
            Expr::MethodCall(m) if m.method == "collect" => m,
            _ => return None,
        };
        let m = match &*m.receiver {
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => m,
            _ => return None,
        };
        let c = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let (stmts, tail) = match &*c.body {
            Expr::Block(b) => {
                let mut v = b.block.stmts.clone();
                match v.pop()? {
                    Stmt::Expr(e, None) => (v, e),
                    _ => return None,
                }
            }
            e => (vec![], e.clone()),
        };
        match tail {
            Expr::Closure(inner) => Some((n, Each { iter: (*m.receiver).clone(), pat: c.inputs[0].clone(), stmts, inner })),
            _ => None,
        }
    }
    pub fn body(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            // PLACING.map(|v| f(v))
            if let Expr::MethodCall(m) = &*e {
                if let (true, Some(Expr::Closure(c))) = (m.method == "map" && m.args.len() == 1, m.args.first()) {
                    if let (Some(v), Some(x)) = (c.inputs.first().and_then(param), self.placing(&m.receiver.clone())) {
                        let f = &c.body;
                        *e = parse_quote!(Ok({ let #v = #x; #f }));
                        if let Expr::Call(c) = e {
                            self.visit_expr_mut(&mut c.args[0]);
                        }
                    }
                }
            }
            if let Some(x) = self.placing(e) {
                *e = parse_quote!(Ok(#x));
                if let Expr::Call(c) = e {
                    self.visit_expr_mut(&mut c.args[0]);
                }
            }
        }
        let mut u = Uses { names: &self.names, found: false };
        u.visit_block_mut(b);
        if u.found {
            self.lost.push("a region is placed in a way the extraction does not follow".into());
        }
    }
}
struct Uses<'a> {
    names: &'a [String],
    found: bool,
}
impl VisitMut for Uses<'_> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if let Expr::Path(p) = &*m.receiver {
            if p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())) && m.method.to_string().starts_with("assign") {
                self.found = true;
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}
impl VisitMut for Layouters {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut v = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Some((n, e)) = self.definition(&s) {
                self.defs.insert(n, (e.iter, e.pat, e.stmts, e.inner));
                continue;
            }
            if let Stmt::Local(l) = &s {
                if let Some(i) = &l.init {
                    let t = squeeze(&tokens(&i.expr));
                    let p = &l.pat;
                    if t == "Instant::now()" || t == "std::time::Instant::now()" {
                        self.notes.insert("timing and log messages".into());
                        continue;
                    }
                    if t.contains("env::var(") {
                        self.notes.insert("a value computed from environment variables is an arbitrary bool".into());
                        v.push(parse_quote!(let #p = any_flag();));
                        continue;
                    }
                    if t.starts_with("std::thread::available_parallelism()") {
                        self.notes.insert("available_parallelism: an arbitrary number, at least 1".into());
                        v.push(parse_quote!(let #p = thread_count();));
                        continue;
                    }
                }
            }
            match &s {
                Stmt::Macro(m) if squeeze(&m.mac.path.to_token_stream().to_string()).starts_with("log::") => {
                    self.notes.insert("timing and log messages".into());
                    continue;
                }
                Stmt::Expr(Expr::MethodCall(m), Some(_)) if m.method == "extend" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    v.push(parse_quote!(extend_vec(&mut #r, #a);));
                    continue;
                }
                _ => {}
            }
            v.push(s);
        }
        b.stmts = v;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(x) = self.placing(&t.expr) {
                *e = x;
            }
        }
        // x.into_iter().flatten().collect()
        if let Expr::MethodCall(m) = &*e {
            if m.method == "collect" {
                if let Expr::MethodCall(f) = &*m.receiver {
                    if let (true, Expr::MethodCall(i)) = (f.method == "flatten", &*f.receiver) {
                        if i.method == "into_iter" {
                            let r = &i.receiver;
                            self.notes.insert("into_iter().flatten().collect(): flattened (assumed contract)".into());
                            *e = parse_quote!(flattened(#r));
                        }
                    }
                }
            }
        }
        // &x[a..=b] is &x[a..b + 1]
        if let Expr::Reference(r) = e {
            if let Expr::Index(i) = &*r.expr {
                if let Expr::Range(g) = &*i.index {
                    let x = &i.expr;
                    if let Some(lo) = &g.start {
                        let hi: Expr = match (&g.end, &g.limits) {
                            (Some(h), RangeLimits::Closed(_)) => parse_quote!(#h + 1),
                            (Some(h), _) => (**h).clone(),
                            (None, _) => parse_quote!(#x.len()),
                        };
                        *e = parse_quote!(piece(&#x, #lo, #hi));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
