#!/bin/bash
# Compiles poseidon-base from the working tree (cwd) together with main.rs and runs it.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cp "$HERE/main.rs" "$HERE/Cargo.lock" "$D/"
cat > "$D/Cargo.toml" <<T
[package]
name = "poseidon-base"
version = "0.1.0"
edition = "2021"
[lib]
name = "poseidon_base"
path = "$REPO/poseidon-base/src/lib.rs"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
lazy_static = "1.4"
bitvec = "1"
halo2curves = { version = "0.1.0", features = ["derive_serde"] }
once_cell = "1.19"
rand = "0.8"
num-bigint = "0.4"
subtle = "2"
[features]
default = ["short"]
short = []
legacy = []
test = []
[profile.dev]
opt-level = 1
[workspace]
T
cd "$D"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/t" RUSTUP_TOOLCHAIN=nightly-2024-07-07
unset RUSTFLAGS
cargo build --offline -q ${DEMO_FEATURES:-} 2> log || { cat log; exit 3; }
timeout 200 "$D/t/debug/demo"
