#!/bin/bash
# check.sh <ID> [quick|thorough]: rebuild the harness against /repo's working
# tree and decide one property. Exit 0 held, 1 violation, else error.
set -u
cd "$(dirname "$0")"
ID="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
ulimit -c 0
export VERIF_SEED="${VERIF_SEED:-1}"
export VP_ROOT="$PWD"
bash ./build.sh || { echo "ERROR: build failed"; exit 2; }
exec ./target/debug/vp check "$ID"
