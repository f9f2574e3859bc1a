#!/bin/bash
# Run in the repository's directory: exit 0 if the property holds there
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/shim"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$HERE/Cargo.lock" "$T/Cargo.lock"
SHARED=
grep -q 'shared::' "$HERE/main.rs" && SHARED="shared = { path = \"$REPO/shared\" }"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rtbvh = { path = "$REPO", features = ["serde"] }
rtbvh_ffi_shim = { path = "shim" }
glam = "0.34"
serde = "1"
serde_json = "1"
rayon = "1.5"
$SHARED
[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
X
cat > "$T/shim/Cargo.toml" <<X
[package]
name = "rtbvh_ffi_shim"
version = "0.1.0"
edition = "2018"
[lib]
name = "rtbvh_rs"
path = "$REPO/rtbvh_ffi/src/lib.rs"
[dependencies]
rtbvh = { path = "$REPO" }
glam = ">=0.14"
lazy_static = "1.4"
parking_lot = "0.11"
X
cd "$T" || exit 9
export CARGO_TARGET_DIR="$T/target"
RUSTFLAGS=-Awarnings timeout 200 cargo build --offline -q > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 8; }
timeout 80 "$T/target/debug/demo"
