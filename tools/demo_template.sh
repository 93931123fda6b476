#!/bin/bash
# Builds the demonstration beside this file against the crates of the current
# directory (the repository) in a scratch directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64-v2 --cap-lints warn"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp "$here/demo.lock" "$w/Cargo.lock" || exit 3
sed "s#@REPO@#$repo#" "$here/demo.toml" > "$w/Cargo.toml"
export CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo build --offline >"$w/build.log" 2>&1 || { tail -40 "$w/build.log"; exit 3; }
cd "$w" && timeout 120 "$w/target/debug/demo"
