#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$here"/*.rs "$w/src/"
cp "$here/Cargo.lock" "$w/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn"
cd "$w" && cargo build --offline -q 2> "$w/build.log" || { tail -20 "$w/build.log"; exit 2; }
timeout 120 "$w/target/debug/demo"
