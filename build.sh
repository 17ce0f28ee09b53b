#!/bin/bash
# Sourced or run: (re)build the harness against ../repo. The library's sources are hashed, so a
# change is picked up whatever its time stamps are.
build_harness() {
  local H="$ROOT/harness" want have log rc
  mkdir -p "$H/target"
  exec 9>"$H/target/.verif-lock"
  flock 9
  want=$( { find "$ROOT/../repo/src" -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; sha256sum "$ROOT/../repo/Cargo.toml"; } | sha256sum | cut -d' ' -f1)
  have=$(cat "$H/target/.repo-stamp" 2>/dev/null)
  if [ "$want" != "$have" ]; then
    (cd "$H" && cargo clean --offline -p rustica >/dev/null 2>&1)
  fi
  log=$(mktemp)
  (cd "$H" && cargo build --offline --quiet "$@") >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    grep -E "^error" -A12 "$log" | head -60 >&2
    tail -5 "$log" >&2
    echo "ERROR: harness build failed" >&2
    rm -f "$log"; flock -u 9; exec 9>&-
    return 2
  fi
  rm -f "$log"
  echo "$want" > "$H/target/.repo-stamp"
  flock -u 9; exec 9>&-
  return 0
}
if [ "${BASH_SOURCE[0]}" = "$0" ]; then
  cd "$(dirname "$0")" || exit 2
  ROOT=$(pwd)
  export CARGO_NET_OFFLINE=true
  build_harness --bins || exit 2
  echo "harness built"
fi
