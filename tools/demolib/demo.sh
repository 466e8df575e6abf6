#!/bin/bash
# Run with cwd = the repository: exit 0 if it behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}"
unset RUSTFLAGS
cargo build --offline --quiet --manifest-path "$tmp/Cargo.toml" > "$tmp/log" 2>&1 || { tail -n 40 "$tmp/log"; exit 2; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo" > "$tmp/out" 2>&1
rc=$?
tail -n 15 "$tmp/out"
exit $rc
