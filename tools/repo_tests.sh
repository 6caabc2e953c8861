#!/bin/bash
# Author's tool (no check uses it): validates the stand-in for FRAME by running the repository's own
# unit tests of the pallets on it. usage: tools/repo_tests.sh [CRATE...]   Works in a scratch copy.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
T=$(mktemp -d /tmp/verif-repo-tests.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp -r "$ROOT"/{Cargo.toml,Cargo.lock,engine,shim,wrap,harness,tools,env.sh} "$T"/ || exit 1
ROOT=$T; . "$T/env.sh"; export CARGO_TARGET_DIR=$T/target
cd "$T" && python3 tools/sync.py || exit 1
CRATES=${*:-pallet-handles pallet-schemas pallet-messages pallet-msa pallet-stateful-storage pallet-capacity pallet-time-release pallet-passkey pallet-frequency-tx-payment common-primitives common-runtime}
python3 - $CRATES <<'P'
import re, sys
extra = ['common-runtime = { path = "../common-runtime" }'] + [f'{n} = {{ path = "../../shim/{n}" }}' for n in (
    "pretty_assertions serial_test chrono pallet-balances pallet-collective pallet-utility pallet-transaction-payment sp-weights sp-keystore sp-keyring hex multibase").split()] + [
    f'{n} = {{ path = "../{n}" }}' for n in ("pallet-msa pallet-handles pallet-schemas pallet-capacity").split()] + [
    'parking_lot = "0.12"', 'rand = "0.8"', 'serde = { version = "1", features = ["derive"] }', 'serde_json = "1"']
import os
for c in sys.argv[1:]:
    p = f"wrap/{c}/Cargo.toml"; s = open(p).read()
    out = []
    for l in extra:
        n = l.split(" ")[0]; m = re.search(r'path = "([^"]+)"', l)
        if n == c or re.search(rf"(?m)^{re.escape(n)}\b", s) or (m and not os.path.isdir(os.path.join(f"wrap/{c}", m.group(1)))):
            continue
        if c in ("common-primitives", "common-runtime") and (n.startswith("pallet-m") or n in ("pallet-handles", "pallet-schemas", "pallet-capacity", "common-runtime")):
            continue
        out.append(l)
    open(p, "w").write(s + "\n[dev-dependencies]\n" + "\n".join(out) + "\n")
P
R=0
for c in $CRATES; do
	echo "== $c"
	VERIF_RANDOM_SIGNATURES=1 cargo test --offline -q -p "$c" --lib -- --test-threads=1 2>&1 | grep -E "^(test result|error|    [a-z_:]+$)|FAILED" | sort -u | head -20
done
exit $R
