#!/bin/bash
# check.sh <Cxx> quick|thorough : builds the harness against /repo's working tree and decides one property.
# Exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
cd "$(dirname "$0")" || exit 2
ROOT="$PWD"
ID="$1"; TIER="${2:-quick}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${MC_TARGET:-$ROOT/target}"
export RUSTFLAGS="--cfg mc_hooks -A warnings"
LOG="$(mktemp)"
BIN="$CARGO_TARGET_DIR/release/mc"
if ! (cd mc && cargo build --release --offline --quiet) >"$LOG" 2>&1; then
  # the tree may have changed under the guarded read-only views: build without them (the checks that
  # use them then fall back to what the public interface shows)
  export RUSTFLAGS="-A warnings"
  export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nohooks"
  BIN="$CARGO_TARGET_DIR/release/mc"
  if ! (cd mc && cargo build --release --offline --quiet) >>"$LOG" 2>&1; then
    tail -n 60 "$LOG" >&2
    rm -f "$LOG"
    echo "mc: build failed" >&2
    exit 2
  fi
fi
rm -f "$LOG"
[ "$ID" = build ] && exit 0
# the gadgets print progress to stdout; only the harness' own lines are passed on
"$BIN" "$ID" "$TIER" "$ROOT" | grep -aE '^(VIOLATION|KNOWN-FINDING|mc:)'
rc=${PIPESTATUS[0]}
exit "$rc"
