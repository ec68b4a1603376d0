#!/bin/bash
# Build the harness from /repo's current working tree (offline).
set -u
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p target out
cd harness
# Never trust file times: the crates under test are compiled afresh.
cargo clean --offline -q -p owned_subslice -p socket-io-protocol -p socket-io-client 2>/dev/null
LOG=../out/build.log
if ! cargo build --offline --locked >"$LOG" 2>&1; then
  tail -40 "$LOG"
  exit 2
fi
