#!/bin/bash
# Builds everything the checks need (each check can also build it itself).
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
cd "$ROOT" || exit 1
python3 tools/sync.py || exit 1
mkdir -p target
(flock 9; cargo build --offline --locked -q --workspace --keep-going) 9>target/.verif-lock
date > target/setup-marker
exit 0
