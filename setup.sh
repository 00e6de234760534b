#!/bin/bash
# Builds the monitor against /repo, in both flavours (each check rebuilds what has changed).
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 1
. ../env.sh
set -e
mkdir -p "$here/work" "$here/evidence"
CARGO_TARGET_DIR="$here/harness/target" cargo build --release --offline --locked
CARGO_TARGET_DIR="$here/harness/target-asan" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address" \
  cargo build --release --offline --locked --features asan --target x86_64-unknown-linux-gnu
