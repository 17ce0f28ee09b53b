#!/bin/bash
# usage: check.sh <property-id> [--quick|--thorough] [--replay FILE]
# Rebuilds the harness against /repo's current working tree and runs one property.
# exit 0: held; 1: VIOLATION line printed; 2: error (no verdict).
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
ID=$1; shift
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
mkdir -p evidence replays
. ./build.sh || exit 2
build_harness --bin "$BIN" || exit 2
exec "$ROOT/harness/target/debug/$BIN" "$@"
