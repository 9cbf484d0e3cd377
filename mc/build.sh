#!/bin/bash
# build.sh <target-dir> [features]
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/wrap.sh" CARGO_TARGET_DIR="$1" CARGO_INCREMENTAL=0 RUSTFLAGS=
unset CARGO_BUILD_TARGET
cd "$here" && cargo build --release --offline ${2:+--features "$2"}
