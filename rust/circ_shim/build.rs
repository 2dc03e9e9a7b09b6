// Forces a rebuild whenever the content hash of /repo's sources (set by the driver) changes.
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
    println!("cargo:rerun-if-changed=build.rs");
}
