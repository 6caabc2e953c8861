export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.76.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR="$ROOT/target"
