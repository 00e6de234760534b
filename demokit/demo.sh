#!/bin/bash
# builds the program beside this file against /repo and runs it: 0 if the property held
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp -r "$here/src" "$here/Cargo.toml" "$here/Cargo.lock" "$w/" || exit 3
export CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}"
cd "$w" && cargo build --release --offline --locked >"$w/log" 2>&1 || { tail -30 "$w/log"; exit 3; }
"$CARGO_TARGET_DIR/release/demo"
