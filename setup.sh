#!/bin/bash
# Builds the engine and cross-checks its bignum oracle against Python's integers.
root="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/target"
cd "$root/harness/engine" || exit 2
cargo build --release --offline --example natdump 2>&1 | tail -1
"$root/target/release/examples/natdump" | python3 check_nat.py || exit 2
cd "$root/harness/sol" || exit 2
cargo build --release --offline --example wdump --example lang 2>&1 | tail -1
"$root/target/release/examples/wdump" | python3 check_w.py || exit 2
"$root/target/release/examples/lang" > /dev/null
