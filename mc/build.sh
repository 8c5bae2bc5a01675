#!/bin/bash
# Builds /verif/mc/target/debug/mcx from /repo's working tree.
cd "$(dirname "$0")" || exit 3
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=/verif/mc/rustc-wrap.sh CARGO_INCREMENTAL=0
exec cargo +nightly build --offline -q
