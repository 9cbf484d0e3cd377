#!/bin/bash
# Runs demo.rs (beside this file) against the candystore crate in the current directory.
# Exit 0: the property holds; anything else: it does not. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/candydemo.XXXXXX) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here"/*.rs "$t/src/" && mv "$t/src/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/"
features=""
[ -f "$here/features" ] && features=", features = [\"$(cat "$here/features")\"]"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
candystore = { path = "$repo"$features }
libc = "0.2"
[workspace]
EOF
export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
cd "$t" && cargo build -q --offline 2>"$t/build.log" || { tail -20 "$t/build.log"; exit 8; }
timeout -k 5 120 "$t/target/debug/demo" "$t/scratch"
rc=$?
echo "demo: exit $rc"
exit $rc
