#!/bin/bash
# Builds /verif/seq/target/debug/seqx from /repo's working tree.
cd "$(dirname "$0")" || exit 3
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
exec cargo +nightly build --offline -q
