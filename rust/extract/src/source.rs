//! Locating items in a source file, with cfg evaluated.
use syn::*;

pub fn cfg_ok(attrs: &[Attribute], feats: &[String]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        match a.parse_args::<Meta>() {
            Ok(m) => eval(&m, feats),
            Err(_) => true,
        }
    })
}
fn eval(m: &Meta, feats: &[String]) -> bool {
    match m {
        Meta::Path(_) => false, // test, debug_assertions ...
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return feats.contains(&s.value());
                }
            }
            false
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(|m| eval(m, feats))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| eval(m, feats))
            } else {
                inner.iter().all(|m| eval(m, feats))
            }
        }
    }
}

pub fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// All items of a file with inline modules (other than test ones) flattened.
pub fn flatten(items: Vec<Item>, feats: &[String], spaces: &std::collections::BTreeSet<String>, out: &mut Vec<Item>) {
    for i in items {
        if !cfg_ok(item_attrs(&i), feats) {
            continue;
        }
        match i {
            Item::Mod(m) if m.content.is_some() => {
                if m.ident == "tests" {
                    continue;
                }
                let n = out.len();
                flatten(m.content.unwrap().1, feats, spaces, out);
                // modules whose functions keep the module in their name
                if spaces.contains(&m.ident.to_string()) {
                    for i in out[n..].iter_mut() {
                        if let Item::Fn(f) = i {
                            f.sig.ident = Ident::new(&format!("{}__{}", m.ident, f.sig.ident), f.sig.ident.span());
                        }
                    }
                }
            }
            i => out.push(i),
        }
    }
}

pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
