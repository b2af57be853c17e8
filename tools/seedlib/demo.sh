#!/bin/bash
# run with cwd /repo; exit 0: behaviour as promised, nonzero otherwise
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$ROOT/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
flapigen = { path = "$ROOT/macroslib" }
[workspace]
[profile.dev]
debug = false
T
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_TARGET_DIR="$W/target" CARGO_TARGET_POINTER_WIDTH=64
cd "$W" || exit 3
cargo build --offline -q 2> "$W/build.log" || { tail -20 "$W/build.log"; exit 3; }
mkdir -p "$W/out"
timeout 120 "$W/target/debug/demo" "$W/out"
