use crate::desugar::{norm_path, param_kind, tokens, Fun};
use crate::expand::{Expand, Helper};
use crate::source::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct FnRec {
    pub key: String,
    pub first: usize,
    pub last: usize,
    pub mode: String,
    pub shape: String,
    pub src: String,
    /// hash of the extracted signature and body
    pub hash: u64,
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub struct Emitter {
    pub repo: String,
    pub feats: Vec<String>,
    pub skip: Vec<String>,
    pub out: String,
    pub files: BTreeMap<String, Vec<Item>>,
    pub functions: Vec<FnRec>,
    pub lost: Vec<(String, String)>,
    pub dropped: BTreeSet<String>,
    pub cur: Option<String>,
    /// hash of the extracted types and constants
    pub items_hash: u64,
    /// modules whose functions keep the module in their name
    pub spaces: BTreeSet<String>,
    /// functions whose calls are replaced by their bodies
    pub helpers: BTreeMap<String, Helper>,
}
/// sections of one function's contract
#[derive(Default, Clone)]
pub struct Sections {
    pub ret: String,
    pub spec: String,
    pub at: BTreeMap<String, String>,
    pub shape: Option<String>,
    pub opts: Vec<String>,
}
/// Self -> an implementor
struct RenameSelf(Ident);
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "Self" {
            *i = self.0.clone();
        }
    }
}
/// Self::X -> the type an impl gives
struct Assoc<'a>(&'a BTreeMap<String, Type>);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
struct Norm;
impl VisitMut for Norm {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        norm_path(p);
        // gates are read off the constraint system itself
        if let Some(l) = p.segments.last_mut() {
            if l.ident == "VirtualCells" {
                l.ident = Ident::new("ConstraintSystem", l.ident.span());
                if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                    a.args = a.args.iter().filter(|g| !matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Macro(m) = t {
            // BitArr!(for N, in u8, Msb0): N bits
            if m.mac.path.is_ident("BitArr") {
                let s = m.mac.tokens.to_string();
                if let Some(n) = s.strip_prefix("for").and_then(|x| x.split(',').next()).and_then(|x| parse_str::<Expr>(x).ok()) {
                    *t = parse_quote!([bool; #n]);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_type_param_mut(&mut self, t: &mut TypeParam) {
        t.bounds = bounds(&t.bounds);
        visit_mut::visit_type_param_mut(self, t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}
/// Debug is dropped (no formatting is verified)
fn bounds(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    b.iter()
        .filter_map(|x| {
            let s = squeeze(&tokens(x));
            if s == "fmt::Debug" || s == "Debug" || s == "std::fmt::Debug" || s == "DebugT" {
                Some(parse_quote!(Copy))
            } else {
                Some(x.clone())
            }
        })
        .collect()
}

impl Emitter {
    fn items(&mut self, file: &str) -> Vec<Item> {
        if !self.files.contains_key(file) {
            let p = format!("{}/{}", self.repo, file);
            let items = match std::fs::read_to_string(&p).ok().and_then(|t| parse_file(&t).ok()) {
                Some(f) => {
                    let mut v = vec![];
                    flatten(f.items, &self.feats, &self.spaces, &mut v);
                    v
                }
                None => {
                    self.lost.push((file.to_string(), "file missing or not parsable".into()));
                    vec![]
                }
            };
            self.files.insert(file.to_string(), items);
        }
        self.files[file].clone()
    }
    fn lines(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn lost(&mut self, key: &str, why: &str) {
        self.lost.push((key.to_string(), why.to_string()));
    }
    pub fn run(&mut self, text: &str, base: &std::path::Path) {
        // conditional parts first: they may also stand inside a block
        let mut cfg = vec![true];
        let mut lines: Vec<&str> = vec![];
        for l in text.lines() {
            let t = l.trim_start();
            if let Some(f) = t.strip_prefix("//@@if ") {
                let f = f.trim();
                cfg.push(match f.strip_prefix('!') {
                    Some(g) => !self.feats.iter().any(|x| x == g),
                    None => self.feats.iter().any(|x| x == f),
                });
            } else if t.starts_with("//@@else") {
                let n = cfg.len() - 1;
                cfg[n] = !cfg[n];
            } else if t.starts_with("//@@fi") && !t.starts_with("//@@file") {
                cfg.pop();
            } else if cfg.iter().all(|x| *x) {
                lines.push(l);
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let t = l.trim_start();
            if !t.starts_with("//@@") {
                self.out.push_str(l);
                self.out.push('\n');
                i += 1;
                continue;
            }
            let d = t[4..].trim();
            let (cmd, rest) = d.split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((d, ""));
            i += 1;
            // the block of this directive: up to //@@end for those that take one
            let takes_block = matches!(cmd, "fn" | "impl" | "default" | "lazy");
            let mut block = vec![];
            if takes_block {
                while i < lines.len() && lines[i].trim() != "//@@end" {
                    block.push(lines[i]);
                    i += 1;
                }
                i += 1;
            }
            match cmd {
                "include" => {
                    let t = std::fs::read_to_string(base.join(rest)).unwrap_or_else(|e| panic!("{rest}: {e}"));
                    self.run(&t, base);
                }
                "file" => self.cur = Some(rest.to_string()),
                "struct" | "type" | "const" | "enum" => self.plain(cmd, rest),
                "fn" => self.free_fn(rest, &block),
                "impl" => self.impl_(rest, &block),
                "default" => self.default_(rest, &block),
                "lazy" => self.lazy(rest, &block),
                "namespace" => self.spaces.extend(rest.split(' ').map(|x| x.to_string())),
                "inline" => self.helper(rest),
                x => panic!("unknown directive {x}"),
            }
        }
    }
    fn cur_items(&mut self) -> Vec<Item> {
        let f = self.cur.clone().expect("//@@file first");
        self.items(&f)
    }
    fn plain(&mut self, kind: &str, name: &str) {
        let (name, public) = name.strip_suffix(" public").map_or((name, false), |n| (n, true));
        let items = self.cur_items();
        let hit = items.into_iter().find(|i| match (kind, i) {
            ("struct", Item::Struct(s)) => s.ident == name,
            ("enum", Item::Enum(s)) => s.ident == name,
            ("type", Item::Type(s)) => s.ident == name,
            ("const", Item::Const(s)) => s.ident == name,
            _ => false,
        });
        match hit {
            Some(mut i) => {
                if let Item::Struct(s) = &mut i {
                    s.attrs.clear();
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        if public {
                            f.vis = parse_quote!(pub);
                            self.dropped.insert("visibility of struct fields".into());
                        }
                    }
                }
                if let Item::Enum(s) = &mut i {
                    s.attrs.clear();
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                    }
                }
                match &mut i {
                    Item::Type(s) => s.attrs.clear(),
                    Item::Const(s) => s.attrs.clear(),
                    _ => {}
                }
                Norm.visit_item_mut(&mut i);
                let s = print(i.to_token_stream(), &mut |_| None);
                self.items_hash = self.items_hash.wrapping_mul(31) ^ hash(&s);
                self.out.push_str(&s);
                self.out.push('\n');
            }
            None => self.lost(name, &format!("{kind} not found")),
        }
    }
    /// a function of the source whose calls are replaced by its body: NAME, or TYPE::NAME for a method called on a field
    fn helper(&mut self, name: &str) {
        let hit = self.cur_items().into_iter().find_map(|i| match (i, name.split_once("::")) {
            (Item::Fn(f), None) if f.sig.ident == name => Some((name.to_string(), f.sig, *f.block)),
            (Item::Impl(x), Some((t, m))) if x.trait_.is_none() && squeeze(&tokens(&x.self_ty)) == t => x.items.into_iter().find_map(|i| match i {
                ImplItem::Fn(f) if f.sig.ident == m => Some((if f.sig.receiver().is_some() { format!(".{m}") } else { m.to_string() }, f.sig, f.block)),
                _ => None,
            }),
            _ => None,
        });
        let Some((key, sig, body)) = hit else {
            self.lost(name, "function not found");
            return;
        };
        self.items_hash = self.items_hash.rotate_left(5) ^ hash(&(tokens(&sig) + &tokens(&body)));
        let params = sig.inputs.iter().map(|a| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => p.ident.to_string(), _ => "?".into() },
        }).collect();
        let gives = sig.inputs.iter().map(|a| match a {
            FnArg::Receiver(_) => None,
            FnArg::Typed(t) => crate::expand::gives(&t.ty),
        }).collect();
        self.helpers.insert(key, Helper { params, generics: gen_names(&sig.generics), gives, body });
    }
    fn free_fn(&mut self, rest: &str, block: &[&str]) {
        let (name, alias) = rest.split_once(" as ").unwrap_or((rest, rest));
        let items = self.cur_items();
        let hit = items.into_iter().find_map(|i| match i {
            Item::Fn(f) if f.sig.ident == name => Some(f),
            _ => None,
        });
        let file = self.cur.clone().unwrap();
        match hit {
            Some(f) => {
                let sec = split_closures(block);
                self.function(alias, &f.vis, f.sig, *f.block, sec, &[], &file)
            }
            None => self.lost(alias, "function not found"),
        }
    }
    fn impl_(&mut self, rest: &str, block: &[&str]) {
        let (rest, inherent) = match rest.split_once(" inherent") {
            Some((r, p)) => (r, Some(p.trim())),
            None => (rest, None),
        };
        let (sel, alias) = rest.split_once(" as ").unwrap_or((rest, rest));
        let sel = squeeze(sel);
        let items = self.cur_items();
        let file = self.cur.clone().unwrap();
        let want: Vec<&str> = block.iter().filter_map(|l| l.trim().strip_prefix("//@ method ")).map(|s| s.trim()).collect();
        let has = |x: &ItemImpl| want.iter().filter(|w| x.items.iter().any(|m| matches!(m, ImplItem::Fn(f) if f.sig.ident == **w))).count();
        let hits: Vec<ItemImpl> = items.into_iter().filter_map(|i| match i {
            Item::Impl(x) => {
                let me = match &x.trait_ {
                    Some((_, p, _)) => format!("{}for{}", squeeze(&tokens(p)), squeeze(&tokens(&x.self_ty))),
                    None => squeeze(&tokens(&x.self_ty)),
                };
                (me == sel).then_some(x)
            }
            _ => None,
        }).collect();
        // several impl blocks of one type: the one that has (most of) the listed methods
        let best = hits.iter().map(|x| has(x)).max().unwrap_or(0);
        let hit = hits.into_iter().find(|x| has(x) == best);
        let Some(mut x) = hit else {
            self.lost(alias, &format!("impl {sel} not found"));
            return;
        };
        let mut x0 = x.clone();
        if let Some(p) = inherent {
            // a trait's methods as methods of the type: PREFIX + name, generic over what the impl is generic over
            // associated types: of the impl, else of another impl of the type in the file
            let me = squeeze(&tokens(&x.self_ty));
            let others: Vec<ImplItem> = self.cur_items().into_iter().filter_map(|i| match i { Item::Impl(o) if o.trait_.is_some() && squeeze(&tokens(&o.self_ty)) == me => Some(o.items), _ => None }).flatten().collect();
            let assoc: BTreeMap<String, Type> = others.iter().chain(x.items.iter()).filter_map(|i| match i { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
            x.items.retain(|i| matches!(i, ImplItem::Fn(_)));
            let of = tokens(&x.self_ty);
            for i in x.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    Assoc(&assoc).visit_impl_item_fn_mut(f);
                    let t = tokens(&f.sig.inputs) + &tokens(&f.sig.output) + &tokens(&f.block);
                    let word = |t: &str, n: &str| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n);
                    let used = |n: &str| word(&t, n) && !word(&of, n);
                    for g in x.generics.params.iter().rev() {
                        if let GenericParam::Type(p) = g {
                            if used(&p.ident.to_string()) {
                                f.sig.generics.params.insert(0, g.clone());
                            }
                        }
                    }
                    f.sig.ident = Ident::new(&format!("{p}{}", f.sig.ident), f.sig.ident.span());
                }
            }
            let mut kept = Generics::default();
            for g in x.generics.params.iter() {
                let name = match g { GenericParam::Type(p) => Some(&p.ident), GenericParam::Const(p) => Some(&p.ident), _ => None };
                if name.map_or(false, |n| of.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| n == w)) {
                    kept.params.push(g.clone());
                }
            }
            x.generics = kept;
            x.trait_ = None;
            self.dropped.insert("methods of a trait impl are methods of the type".into());
        }
        let members = std::mem::take(&mut x.items);
        Norm.visit_item_impl_mut(&mut x);
        x0.items.clear();
        let head = print(x.to_token_stream(), &mut |_| None);
        let head = head.trim_end().trim_end_matches('}').trim_end().trim_end_matches('{').to_string();
        self.out.push_str(&head);
        self.out.push_str(" {\n");
        let (extra, methods) = split_methods(block);
        self.out.push_str(&extra);
        let gens: Vec<String> = gen_names(&x.generics);
        let mut used = BTreeSet::new();
        for m in members {
            match m {
                ImplItem::Type(mut t) => {
                    Norm.visit_impl_item_type_mut(&mut t);
                    self.out.push_str(&print(t.to_token_stream(), &mut |_| None));
                }
                ImplItem::Const(mut t) => {
                    t.attrs.clear();
                    self.out.push_str(&print(t.to_token_stream(), &mut |_| None));
                }
                ImplItem::Fn(f) if cfg_ok(&f.attrs, &self.feats) => {
                    let n = f.sig.ident.to_string();
                    if let Some(b) = methods.get(&n) {
                        used.insert(n.clone());
                        let b: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
                        self.function(&format!("{alias}::{n}"), &f.vis, f.sig, f.block, split_closures(&b), &gens, &file);
                    } else {
                        self.dropped.insert(format!("method {alias}::{n} (not under contract)"));
                    }
                }
                _ => {}
            }
        }
        for n in methods.keys() {
            if !used.contains(n) {
                // not overridden: the trait's default body
                if let Some((_, p, _)) = &x.trait_ {
                    let tr = p.segments.last().unwrap().ident.to_string();
                    let feats = self.feats.clone();
                    let d = self.cur_items().into_iter().find_map(|i| match i {
                        Item::Trait(t) if t.ident == tr => t.items.into_iter().find_map(|m| match m {
                            TraitItem::Fn(f) if f.sig.ident == n && f.default.is_some() && cfg_ok(&f.attrs, &feats) => Some(f),
                            _ => None,
                        }),
                        _ => None,
                    });
                    if let Some(f) = d {
                        let b: Vec<&str> = methods[n].iter().map(|s| s.as_str()).collect();
                        self.function(&format!("{alias}::{n}"), &Visibility::Inherited, f.sig, f.default.unwrap(), split_closures(&b), &gens, &file);
                        continue;
                    }
                }
                self.lost(&format!("{alias}::{n}"), "method not found");
            }
        }
        self.out.push_str("}\n");
    }
    fn default_(&mut self, rest: &str, block: &[&str]) {
        // `as S`: a function over an implementor S instead of the trait's default body
        let (rest, free) = match rest.split_once(" as ") {
            Some((r, s)) => (r, Some(s.trim())),
            None => (rest, None),
        };
        let (tr, name) = rest.split_once("::").unwrap();
        let items = self.cur_items();
        let file = self.cur.clone().unwrap();
        let tgen = items.iter().find_map(|i| match i {
            Item::Trait(t) if t.ident == tr => Some(t.generics.clone()),
            _ => None,
        });
        let hit = items.into_iter().find_map(|i| match i {
            Item::Trait(t) if t.ident == tr => t.items.into_iter().find_map(|m| match m {
                TraitItem::Fn(f) if f.sig.ident == name && cfg_ok(&f.attrs, &self.feats) => Some(f),
                _ => None,
            }),
            _ => None,
        });
        match hit {
            Some(mut f) if f.default.is_some() => {
                let sec = split_closures(block);
                if let (Some(n), Some(mut g)) = (free, tgen) {
                    let s: Ident = parse_str(n).unwrap();
                    let t: Ident = parse_str(tr).unwrap();
                    let args: Vec<Ident> = gen_names(&g).iter().map(|x| parse_str(x).unwrap()).collect();
                    let bound: TypeParam = parse_quote!(#s: #t<#(#args),*>);
                    g.params.push(GenericParam::Type(bound));
                    g.params.extend(f.sig.generics.params.clone());
                    f.sig.generics.params = g.params;
                    let mut r = RenameSelf(s);
                    r.visit_signature_mut(&mut f.sig);
                    r.visit_block_mut(f.default.as_mut().unwrap());
                    self.dropped.insert(format!("{rest}: the default body is verified as a function over any implementor"));
                }
                self.function(rest, &Visibility::Inherited, f.sig, f.default.unwrap(), sec, &[], &file)
            }
            _ => self.lost(rest, "default method not found"),
        }
    }
    /// lazy_static! { static ref NAME: T = init; }  =>  a verified initialiser and a trusted accessor with its contract
    fn lazy(&mut self, name: &str, block: &[&str]) {
        let items = self.cur_items();
        let file = self.cur.clone().unwrap();
        let sec = split_closures(block).remove("").unwrap_or_default();
        for i in items {
            if let Item::Macro(m) = i {
                if m.mac.path.segments.last().map_or(false, |s| s.ident == "lazy_static") {
                    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    // statements separated by ;
                    for st in toks.split(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                        let pos = st.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == name));
                        if let Some(p) = pos {
                            let eq = match st.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '=')) {
                                Some(e) => e,
                                None => continue,
                            };
                            let ty: TokenStream = st[p + 2..eq].iter().cloned().collect();
                            let ex: TokenStream = st[eq + 1..].iter().cloned().collect();
                            if let (Ok(ty), Ok(ex)) = (parse2::<Type>(ty), parse2::<Expr>(ex)) {
                                let fname = proc_macro2::Ident::new(&format!("{name}__init"), proc_macro2::Span::call_site());
                                let f: ItemFn = parse_quote!(fn #fname() -> #ty { #ex });
                                let mut m = BTreeMap::new();
                                m.insert(String::new(), sec.clone());
                                self.function(&format!("{name}__init"), &f.vis, f.sig, *f.block, m, &[], &file);
                                let mut ty2 = ty.clone();
                                Norm.visit_type_mut(&mut ty2);
                                let spec = sec.spec.replace("(r)", "(*r)");
                                self.out.push_str(&format!("#[verifier::external_body]\nfn {name}__get() -> (r: &'static {})\n{}\n{{ unimplemented!() }}\n", print(ty2.to_token_stream(), &mut |_| None), spec));
                                self.dropped.insert(format!("lazy_static {name}: accessor trusted to return the verified initialiser's result"));
                                return;
                            }
                        }
                    }
                }
            }
        }
        self.lost(name, "lazy_static not found");
    }

    fn function(&mut self, key: &str, vis: &Visibility, sig: Signature, body: Block, mut secs: BTreeMap<String, Sections>, impl_gens: &[String], file: &str) {
        let sec = secs.remove("").unwrap_or_default();
        let mut sig = sig;
        let mut gens: Vec<String> = impl_gens.to_vec();
        gens.extend(gen_names(&sig.generics));
        Norm.visit_signature_mut(&mut sig);
        let mut body = body;
        let mut f = Fun {
            outer: sig.ident.to_string(),
            generics: gen_names(&sig.generics),
            kinds: Default::default(),
            ptypes: Default::default(),
            lifted: vec![],
            loops: 0,
            returns: 0,
            hoists: 0, opaques: Default::default(),
            shape: String::new(),
            notes: Default::default(),
            unit: matches!(sig.output, ReturnType::Default),
            refuses: sec.opts.iter().any(|o| o == "refuses"),
            refusals: 0,
            result_map: sec.opts.iter().any(|o| o == "map result"),
            inline: sec.opts.iter().filter_map(|o| o.strip_prefix("inline ")).map(|x| x.to_string()).collect(),
            inlined: Default::default(),
            types: sec.opts.iter().filter_map(|o| o.strip_prefix("type ")?.split_once(' ')).map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            generator: sec.opts.iter().any(|o| o == "generator"),
            breaks: 0,
            callbacks: sec.opts.iter().filter_map(|o| o.strip_prefix("callback ")).flat_map(|x| x.split(' ').map(|y| y.to_string()).collect::<Vec<_>>()).collect(),
            called: 0,
            iters: Default::default(),
            unroll: sec.opts.iter().any(|o| o == "unroll"),
            options: sec.opts.iter().filter_map(|o| o.strip_prefix("map option ")).map(|x| x.to_string()).collect(),
            arrays: Default::default(),
        };
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Some(ty) = sequence_param(&t.ty) {
                    *t.ty = ty;
                    self.dropped.insert("an `impl IntoIterator` argument is the sequence of items it yields".into());
                }
            }
        }
        // the layouter: positions of regions are not part of the contract
        let lay: Vec<String> = sig.inputs.iter().filter_map(layouter_param).collect();
        let keeps = sec.opts.iter().any(|o| o == "layouter");
        if keeps {
            let feats = self.feats.clone();
            DropStatic { lazies: vec![], feats }.visit_block_mut(&mut body);
            let mut l = crate::layouter::Layouters::new(lay.clone());
            l.body(&mut body);
            for n in &l.notes {
                self.dropped.insert(n.clone());
            }
            for n in &l.lost {
                self.lost(key, n);
            }
        }
        if sec.opts.iter().any(|o| o.starts_with("expand")) {
            let keep = sec.opts.iter().any(|o| o == "expand keep loops");
            let (helpers, spaces) = (self.helpers.clone(), self.spaces.clone());
            let mut x = Expand::new(&helpers, &spaces, keep);
            x.consts = self.cur_items().iter().filter_map(|i| match i { Item::Const(c) => match &*c.expr { Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => Some((c.ident.to_string(), n.clone())), _ => None }, _ => None }).collect();
            x.arrays = sec.opts.iter().filter_map(|o| { let v: Vec<&str> = o.strip_prefix("array ")?.split(' ').collect(); Some((v[0].to_string(), (v[1].parse().ok()?, v.get(2) == Some(&"copy")))) }).collect();
            x.last_call(&mut body);
            x.visit_block_mut(&mut body);
            for n in &x.notes {
                self.dropped.insert(n.clone());
            }
            for n in &x.lost {
                self.lost(key, n);
            }
        }
        if !lay.is_empty() && !keeps {
            sig.inputs = sig.inputs.iter().filter(|a| layouter_param(a).is_none()).cloned().collect();
            let mut d = DropArgs { names: &lay, left: false };
            d.visit_block_mut(&mut body);
            if d.left {
                self.lost(key, "the layouter is used other than by handing it on");
                body = parse_quote!({ layouter_used() });
            }
            self.dropped.insert("parameters `impl Layouter` and the arguments that only hand it on (layouter, &mut layouter, layouter.namespace(..))".into());
        }
        // a tuple pattern parameter becomes a parameter and a let
        let mut lets: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if let Pat::Tuple(p) = &*t.pat {
                    let n = proc_macro2::Ident::new(&format!("p{}__", lets.len()), proc_macro2::Span::call_site());
                    lets.push(parse_quote!(let #p = #n;));
                    *t.pat = parse_quote!(#n);
                }
            }
        }
        for (i, l) in lets.into_iter().enumerate() {
            body.stmts.insert(i, l);
        }
        self.params(&mut f, sig.inputs.iter());
        // `mut self`
        let mut mut_self = false;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    mut_self = true;
                }
            }
        }
        if mut_self {
            SelfTo.visit_block_mut(&mut body);
            body.stmts.insert(0, parse_quote!(let mut self__ = self;));
        }
        let feats = self.feats.clone();
        DropStatic { lazies: lazy_names(&self.cur_items()), feats }.visit_block_mut(&mut body);
        f.body(&mut body);
        let lifted = std::mem::take(&mut f.lifted);
        for n in &f.notes {
            self.dropped.insert(n.clone());
        }
        // lifted closures first
        let in_impl = !impl_gens.is_empty() || key.contains("::");
        let mut pending: Vec<(String, Signature, Expr, Sections)> = vec![];
        for l in &lifted {
            let s = secs.remove(&l.name).unwrap_or_default();
            let name = proc_macro2::Ident::new(&format!("{}__{}", sig.ident, l.name), proc_macro2::Span::call_site());
            let mut sg = sig.clone();
            sg.ident = name;
            sg.inputs = l.params.iter().cloned().collect();
            for (n, t) in &l.captured {
                let n = proc_macro2::Ident::new(n, proc_macro2::Span::call_site());
                let t = match t {
                    Type::Reference(_) => t.clone(),
                    t => t.clone(),
                };
                sg.inputs.push(parse_quote!(#n: #t));
            }
            sg.output = l.ret.clone();
            Norm.visit_signature_mut(&mut sg);
            pending.push((format!("{key}.{}", l.name), sg, l.body.clone(), s));
        }
        for k in secs.keys() {
            self.lost(&format!("{key}.{k}"), "closure not found");
        }
        if !in_impl {
            for (k, sg, b, s) in pending {
                let b: Block = match b {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
                let mut f = Fun { outer: sg.ident.to_string(), generics: gen_names(&sg.generics), kinds: Default::default(), ptypes: Default::default(), lifted: vec![], loops: 0, returns: 0, hoists: 0, opaques: Default::default(), shape: String::new(), notes: Default::default(), unit: matches!(sg.output, ReturnType::Default), refuses: false, refusals: 0, result_map: false, inline: vec![], inlined: Default::default(), types: Default::default(), generator: false, breaks: 0, callbacks: vec![], called: 0, iters: Default::default(), unroll: false, options: vec![], arrays: Default::default() };
                self.params(&mut f, sg.inputs.iter());
                let mut b = b;
                f.body(&mut b);
                for n in &f.notes {
                    self.dropped.insert(n.clone());
                }
                self.write_fn(&k, &Visibility::Inherited, &sg, b, s, &f.shape, file);
            }
        }
        self.write_fn(key, vis, &sig, body, sec, &f.shape, file);
    }
    fn params<'a>(&self, f: &mut Fun, it: impl Iterator<Item = &'a FnArg>) {
        for a in it {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    let n = i.ident.to_string();
                    if let Some(k) = param_kind(&t.ty) {
                        f.kinds.insert(n.clone(), k);
                    }
                    f.ptypes.insert(n, (*t.ty).clone());
                }
            }
        }
    }
    fn write_fn(&mut self, key: &str, vis: &Visibility, sig: &Signature, body: Block, sec: Sections, shape: &str, file: &str) {
        let mut used = BTreeSet::new();
        let at = sec.at.clone();
        let text = print(body.to_token_stream(), &mut |m| {
            let r = at.get(m).cloned();
            if r.is_some() {
                used.insert(m.to_string());
            }
            r
        });
        let plain = print(body.to_token_stream(), &mut |_| None) + &tokens(sig);
        let mut mode = "verified".to_string();
        if self.skip.iter().any(|s| s == key) {
            mode = "skipped".into();
        } else {
            let missing: Vec<&String> = at.keys().filter(|k| !used.contains(*k)).collect();
            if !missing.is_empty() {
                self.lost(key, &format!("anchors not found: {missing:?}"));
                mode = "lost".into();
            } else if let Some(s) = &sec.shape {
                if squeeze(s) != shape {
                    self.lost(key, &format!("loop structure changed: {shape}"));
                    mode = "lost".into();
                }
            }
        }
        if sec.opts.iter().any(|o| o == "trusted") {
            mode = "trusted".into();
        }
        let mut head = String::new();
        let vt = tokens(vis);
        if !vt.is_empty() {
            head.push_str(&vt);
            head.push(' ');
        }
        let g = tokens(&sig.generics);
        let (_, _, wc) = sig.generics.split_for_impl();
        head.push_str(&format!("fn {}{}({})", sig.ident, g, print(sig.inputs.to_token_stream(), &mut |_| None).trim()));
        if let ReturnType::Type(_, t) = &sig.output {
            let r = if sec.ret.is_empty() { "r" } else { &sec.ret };
            head.push_str(&format!(" -> ({}: {})", r, print(t.to_token_stream(), &mut |_| None).trim()));
        }
        let w = tokens(&wc);
        let first;
        if mode != "verified" {
            self.out.push_str("#[verifier::external_body]\n");
            first = self.lines();
            self.out.push_str(&format!("{head} {w}\n{}\n{{ unimplemented!() }}\n", sec.spec));
        } else {
            for o in sec.opts.iter().filter(|o| o.starts_with("#[")) {
                self.out.push_str(o);
                self.out.push('\n');
            }
            first = self.lines();
            // probe run: every function must be refused once `false` is asserted at its entry
            // (otherwise its precondition or the axioms in scope are contradictory)
            let text = if std::env::var("EXTRACT_PROBE").is_ok() {
                "{ proof { assert(false); } vstd::pervasive::unreached() }".to_string()
            } else {
                text.clone()
            };
            self.out.push_str(&format!("{head} {w}\n{}\n{text}\n", sec.spec));
        }
        let last = self.lines();
        self.functions.push(FnRec { key: key.into(), first, last, mode, shape: shape.into(), src: file.into(), hash: hash(&plain) });
    }
}

/// `impl IntoIterator<Item = &T>` -> `&[T]`, `impl IntoIterator<Item = T>` -> `Vec<T>`
fn sequence_param(t: &Type) -> Option<Type> {
    let Type::ImplTrait(i) = t else { return None };
    let Some(TypeParamBound::Trait(b)) = i.bounds.first() else { return None };
    let seg = b.path.segments.last()?;
    if seg.ident != "IntoIterator" && seg.ident != "Iterator" {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &seg.arguments else { return None };
    for x in &a.args {
        if let GenericArgument::AssocType(x) = x {
            if x.ident == "Item" {
                return Some(match &x.ty {
                    Type::Reference(r) => {
                        let e = &r.elem;
                        parse_quote!(&[#e])
                    }
                    e => parse_quote!(Vec<#e>),
                });
            }
        }
    }
    None
}
fn layouter_param(a: &FnArg) -> Option<String> {
    let FnArg::Typed(t) = a else { return None };
    let ty = match &*t.ty {
        Type::Reference(r) => &*r.elem,
        x => x,
    };
    let Type::ImplTrait(i) = ty else { return None };
    let Some(TypeParamBound::Trait(b)) = i.bounds.first() else { return None };
    match (&*t.pat, b.path.segments.last().map(|s| s.ident == "Layouter")) {
        (Pat::Ident(p), Some(true)) => Some(p.ident.to_string()),
        _ => None,
    }
}
struct DropArgs<'a> {
    names: &'a [String],
    left: bool,
}
impl DropArgs<'_> {
    fn hands_on(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())),
            Expr::Reference(r) => self.hands_on(&r.expr),
            Expr::Paren(r) => self.hands_on(&r.expr),
            Expr::MethodCall(m) => m.method == "namespace" && self.hands_on(&m.receiver),
            _ => false,
        }
    }
}
impl VisitMut for DropArgs<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        c.args = c.args.iter().filter(|a| !self.hands_on(a)).cloned().collect();
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
        c.args = c.args.iter().filter(|a| !self.hands_on(a)).cloned().collect();
        visit_mut::visit_expr_method_call_mut(self, c);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        self.left |= self.names.contains(&i.to_string());
    }
}
struct SelfTo;
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = parse_quote!(self__);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn lazy_names(items: &[Item]) -> Vec<String> {
    let mut v = vec![];
    for i in items {
        if let Item::Macro(m) = i {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "lazy_static") {
                let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                for w in t.windows(2) {
                    if let (TokenTree::Ident(a), TokenTree::Ident(b)) = (&w[0], &w[1]) {
                        if a == "ref" {
                            v.push(b.to_string());
                        }
                    }
                }
            }
        }
    }
    v
}
/// drops `static X: OnceCell<..>` items of a body (see get_or_init), evaluates cfg on statements, reads lazy statics through their accessor
struct DropStatic {
    lazies: Vec<String>,
    feats: Vec<String>,
}
impl VisitMut for DropStatic {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let feats = self.feats.clone();
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Static(s)) => !squeeze(&tokens(&s.ty)).contains("OnceCell<"),
            Stmt::Item(Item::Use(_)) => false,
            Stmt::Local(l) => cfg_ok(&l.attrs, &feats),
            Stmt::Expr(Expr::Block(b), _) => cfg_ok(&b.attrs, &feats),
            Stmt::Expr(Expr::If(b), _) => cfg_ok(&b.attrs, &feats),
            Stmt::Macro(m) => cfg_ok(&m.attrs, &feats),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.lazies.contains(&i.to_string()) {
                    let g = proc_macro2::Ident::new(&format!("{i}__get"), proc_macro2::Span::call_site());
                    *e = parse_quote!(#g());
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn gen_names(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        })
        .collect()
}

/// contract sections; closures of the function under their name
fn split_closures(block: &[&str]) -> BTreeMap<String, Sections> {
    let mut m: BTreeMap<String, Sections> = BTreeMap::new();
    m.insert(String::new(), Sections::default());
    let mut cur = String::new();
    let mut sect = "spec".to_string();
    for l in block {
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix("//@ ") {
            let d = d.trim();
            let (c, r) = d.split_once(' ').unwrap_or((d, ""));
            match c {
                "closure" => {
                    cur = r.to_string();
                    sect = "spec".into();
                    m.insert(cur.clone(), Sections::default());
                }
                "ret" => m.get_mut(&cur).unwrap().ret = r.into(),
                "shape" => m.get_mut(&cur).unwrap().shape = Some(r.into()),
                "opt" => m.get_mut(&cur).unwrap().opts.push(r.into()),
                "spec" => sect = "spec".into(),
                "loop" => sect = format!("loop {r}"),
                "at" => sect = r.to_string(),
                x => panic!("unknown section {x}"),
            }
            continue;
        }
        let s = m.get_mut(&cur).unwrap();
        let dst = if sect == "spec" { &mut s.spec } else { s.at.entry(sect.clone()).or_default() };
        dst.push_str(l);
        dst.push('\n');
    }
    m
}
fn split_methods(block: &[&str]) -> (String, BTreeMap<String, Vec<String>>) {
    let mut extra = String::new();
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut cur: Option<String> = None;
    for l in block {
        let t = l.trim_start();
        if let Some(n) = t.strip_prefix("//@ method ") {
            cur = Some(n.trim().to_string());
            m.insert(n.trim().to_string(), vec![]);
        } else if let Some(c) = &cur {
            m.get_mut(c).unwrap().push(l.to_string());
        } else {
            extra.push_str(l);
            extra.push('\n');
        }
    }
    (extra, m)
}

/// token printer with one statement per line; marks are looked up and replaced
pub fn print(ts: TokenStream, look: &mut dyn FnMut(&str) -> Option<String>) -> String {
    let mut s = String::new();
    pr(ts, &mut s, look);
    s
}
fn mark_of(v: &[TokenTree], i: usize, name: &str) -> Option<String> {
    if let (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
        if a == name && b.as_char() == '!' {
            let t = g.stream().to_string();
            return Some(t.trim().trim_matches('"').to_string());
        }
    }
    None
}
fn pr(ts: TokenStream, s: &mut String, look: &mut dyn FnMut(&str) -> Option<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(m) = mark_of(&v, i, "__vx_at") {
            i += 3;
            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                i += 1;
            }
            if let Some(t) = look(&m) {
                s.push('\n');
                s.push_str(&t);
                s.push('\n');
            }
            continue;
        }
        if mark_of(&v, i, "__vx_spec").is_some() {
            i += 3;
            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                i += 1;
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some(m) = mark_of(&inner, 0, "__vx_spec") {
                        if let Some(t) = look(&m) {
                            s.push('\n');
                            s.push_str(&t);
                        }
                    }
                    s.push_str(" {\n");
                    pr(g.stream(), s, look);
                    s.push_str("\n} ");
                    // keep `} else`, `}.`, `})` on one line
                    if matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x != "else") || v.get(i + 1).is_none() {
                        s.push('\n');
                    }
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    pr(g.stream(), s, look);
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    pr(g.stream(), s, look);
                    s.push_str("] ");
                }
                Delimiter::None => pr(g.stream(), s, look),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                } else if p.spacing() == Spacing::Alone && p.as_char() != '!' {
                    s.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                s.push_str(&x.to_string());
                s.push(' ');
            }
            TokenTree::Literal(x) => {
                s.push_str(&x.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
}
