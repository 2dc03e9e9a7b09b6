mod base;
mod kf;
mod obl;
mod refp;
mod spec;

fn main() {
    // panics of the code under test are caught and reported as data
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    for id in &args[1..] {
        let outs = match id.as_str() {
            "C01" => base::c01(),
            "C02" => base::c02(),
            "C03" => base::c03(),
            "C04" => base::c04(),
            "C05" => base::c05(),
            "C06" => base::c06(),
            "C07" => base::c07(),
            "C08" => base::c08(),
            other => panic!("unknown property {other}"),
        };
        for o in &outs {
            o.emit();
        }
        println!("DONE {id} {}", outs.len());
    }
}
