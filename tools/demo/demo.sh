#!/bin/bash
# Builds a small program against the tree in the current directory and runs it; it panics where the behaviour is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$t/target CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
mv "$t/src/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
oraiswap-v3 = { path = "$repo/contracts/oraiswap-v3", features = ["library"] }
oraiswap-v3-wasm = { path = "$repo/wasm" }
cosmwasm-std = "=1.2"
cw20 = "1.0.1"
decimal = { path = "$repo/packages/decimal" }
serde = { version = "1.0", features = ["derive"] }
[workspace]
TOML
sed '/^\[\[patch.unused\]\]/,$d' "$repo/Cargo.lock" > "$t/Cargo.lock"
cd "$t" && cargo build --offline -q 2> "$t/err" || { cat "$t/err"; exit 3; }
"$t/target/debug/demo"
