#!/bin/bash
# Exits 0 when the behaviour asserted in main.rs holds for the sources in the current directory (/repo).
HERE=$(cd "$(dirname "$0")" && pwd)
T=/tmp/vp-demo-@ID@
rm -rf /tmp/vp-demo-@ID@
mkdir -p $T/dep $T/src
for i in src build.rs constants.rs; do cp -r pallets/handles/src/handles-utils/$i $T/dep/; done
cp "$HERE/dep.toml.txt" $T/dep/Cargo.toml
cp "$HERE/demo.toml.txt" $T/Cargo.toml
cp "$HERE/demo.lock.txt" $T/Cargo.lock
cp "$HERE/main.rs" $T/src/main.rs
cd $T
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR=$T/target
cargo build --offline -q || { rm -rf /tmp/vp-demo-@ID@; exit 99; }
./target/debug/demo
R=$?
rm -rf /tmp/vp-demo-@ID@
exit $R
