#!/bin/bash
# Compiles poseidon-base and poseidon-circuit from the working tree (cwd) against the recording
# stand-in for halo2_proofs beside this script, together with main.rs, and runs the result.
set -e
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/mock/src" "$D/log" "$D/base" "$D/circ" "$D/demo"
cp "$HERE"/mock_*.rs "$D/mock/src/"; for f in "$D"/mock/src/mock_*.rs; do mv "$f" "${f/mock_/}"; done
cp "$HERE/main.rs" "$HERE/kit.rs" "$D/demo/"; cp "$HERE/Cargo.lock" "$D/"
cat > "$D/Cargo.toml" <<T
[workspace]
resolver = "2"
members = ["log", "mock", "base", "circ", "demo"]
[profile.dev]
opt-level = 1
T
cat > "$D/mock/Cargo.toml" <<T
[package]
name = "halo2_proofs"
version = "0.2.99"
edition = "2021"
[dependencies]
halo2curves = { version = "0.1.0", features = ["derive_serde"] }
ff = { version = "0.13", features = ["bits"] }
[features]
parallel_syn = []
T
cp "$HERE/log_stub.rs" "$D/log/lib.rs"
cat > "$D/log/Cargo.toml" <<T
[package]
name = "log"
version = "0.4.99"
edition = "2021"
[lib]
path = "lib.rs"
T
cat > "$D/base/Cargo.toml" <<T
[package]
name = "poseidon-base"
version = "0.1.0"
edition = "2021"
[lib]
path = "$REPO/poseidon-base/src/lib.rs"
[dependencies]
lazy_static = "1.4"
bitvec = "1"
halo2curves = { version = "0.1.0", features = ["derive_serde"] }
once_cell = "1.19"
[features]
short = []
legacy = []
T
cat > "$D/circ/Cargo.toml" <<T
[package]
name = "poseidon-circuit"
version = "0.1.0"
edition = "2021"
[lib]
path = "$REPO/poseidon-circuit/src/lib.rs"
[dependencies]
ff = { version = "0.13", features = ["bits"] }
halo2_proofs = { path = "../mock" }
log = { path = "../log" }
poseidon-base = { path = "../base" }
rand = "0.8"
[features]
default = ["parallel_syn", "short"]
parallel_syn = ["halo2_proofs/parallel_syn"]
short = ["poseidon-base/short"]
legacy = ["poseidon-base/legacy"]
T
cat > "$D/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
halo2curves = { version = "0.1.0", features = ["derive_serde"] }
halo2_proofs = { path = "../mock" }
poseidon-base = { path = "../base" }
poseidon-circuit = { path = "../circ", default-features = false }
[features]
default = ["short", "parallel_syn"]
short = ["poseidon-circuit/short"]
parallel_syn = ["poseidon-circuit/parallel_syn"]
T
cd "$D"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/t" RUSTUP_TOOLCHAIN=nightly-2024-07-07
unset RUSTFLAGS
cargo build --offline -q -p demo 2> build.log || { cat build.log; exit 3; }
timeout 200 "$D/t/debug/demo"
