//! Mechanical extraction of functions of /repo into a file the Verus verifier accepts.
//!
//! usage: extract REPO TEMPLATE OUT FEATURES(comma separated) [SKIP keys]
//!
//! TEMPLATE is Verus text with directives (see DESIGN.md).  Function bodies always come from /repo;
//! the template supplies specifications, loop invariants and proof text only.
mod desugar;
mod emit;
mod expand;
mod layouter;
mod source;
use std::collections::BTreeMap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, template, out, feats) = (&a[1], &a[2], &a[3], &a[4]);
    let feats: Vec<String> = feats.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let skip: Vec<String> = a.get(5).map(|s| s.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default();
    let text = std::fs::read_to_string(template).expect("template");
    let base = std::path::Path::new(template).parent().unwrap().to_path_buf();
    let mut t = emit::Emitter { repo: repo.clone(), feats, skip, out: String::new(), files: BTreeMap::new(), functions: vec![], lost: vec![], dropped: Default::default(), cur: None, items_hash: 0, spaces: Default::default(), helpers: BTreeMap::new() };
    t.run(&text, &base);
    std::fs::write(out, &t.out).unwrap();
    for f in &t.functions {
        println!("FN\t{}\t{}\t{}\t{}\t{}\t{}\t{:x}", f.key, f.first, f.last, f.mode, f.shape, f.src, f.hash);
    }
    println!("ITEMS\t{:x}", t.items_hash);
    for l in &t.lost {
        println!("LOST\t{}\t{}", l.0, l.1.replace('\n', " "));
    }
    for d in &t.dropped {
        println!("DROP\t{}", d);
    }
}
