#!/bin/bash
# bash run.sh <ID> quick|thorough        runs the check of one property
# bash run.sh <ID> replay <file>         replays a saved failing case
# Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: no answer.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
ID="${1:?property id}"
MODE="${2:-quick}"
BIN="$(awk -F'\t' -v id="$ID" '$1==id{print $2}' "$ROOT/tools/bins.tsv")"
if [ -z "$BIN" ]; then
  echo "ERROR: no check for $ID" >&2
  exit 3
fi
cd "$ROOT" || exit 3
python3 tools/sync.py || exit 3
mkdir -p "$ROOT/target"
LOG="$ROOT/target/build-$ID.log"
if ! (flock 9; cargo build --offline --locked -q -p "$BIN") 9>"$ROOT/target/.verif-lock" >"$LOG" 2>&1; then
  grep -E '^error' -A 12 "$LOG" | head -60 >&2
  echo "ERROR: build of $BIN failed (full log $LOG)" >&2
  exit 3
fi
export VERIF_ROOT="$ROOT"
"$ROOT/target/debug/$BIN" "$ID" "$MODE" "${3:-}"
rc=$?
case "$rc" in
  0 | 1) exit "$rc" ;;
  *) echo "ERROR: $BIN ended with status $rc" >&2; exit 3 ;;
esac
