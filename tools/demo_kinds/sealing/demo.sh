#!/bin/bash
# Exits 0 when the behaviour asserted in main.rs holds for the sources in the current directory (/repo).
# kit.tar.xz holds stand-ins for the node around block_sealing.rs (client, pool, task manager), and
# a script that copies that file from the current directory.
HERE=$(cd "$(dirname "$0")" && pwd)
T=/tmp/vp-demo-@ID@
rm -rf /tmp/vp-demo-@ID@
mkdir -p $T
tar -xJf "$HERE/kit.tar.xz" -C $T || exit 98
VERIF_REPO=$(pwd) python3 $T/tools/sync.py || { rm -rf /tmp/vp-demo-@ID@; exit 97; }
cp "$HERE/main.rs" $T/demo/src/main.rs
cd $T
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR=$T/target
cargo build --offline -q -p demo || { rm -rf /tmp/vp-demo-@ID@; exit 99; }
./target/debug/demo
R=$?
rm -rf /tmp/vp-demo-@ID@
exit $R
