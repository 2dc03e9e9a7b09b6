mod engine;
#[path = "../../harness/src/obl.rs"]
mod obl;
mod perm;
#[path = "../../harness/src/refp.rs"]
mod refp;
mod sched;
#[path = "../../harness/src/spec.rs"]
mod spec;
mod sponge;
mod table;

fn main() {
    // panics of the code under test are caught and reported as data
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    for id in &args[1..] {
        let outs = match id.as_str() {
            "C10" => perm::c10(),
            "C11" => perm::c11(),
            "C12" => perm::c12(),
            "C13" => perm::c13(),
            "C14" => table::c14(),
            "C15" => table::c15(),
            "C16" => table::c16(),
            "C18" => sponge::c18(),
            "C17" => table::c17(),
            "C09" => table::c09(),
            other => panic!("unknown property {other}"),
        };
        for o in &outs {
            o.emit();
        }
        println!("DONE {id} {}", outs.len());
    }
}
