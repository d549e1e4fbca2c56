#!/bin/bash
# Builds the demonstration beside this file against the repository in the current directory and runs it.
# Exit 0: the behaviour is right.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE"/*.rs "$W/src/"
cp "$HERE/Cargo.lock" "$W/"
sed "s#@REPO@#$REPO#g" "$HERE/Cargo.toml.in" >"$W/Cargo.toml"
for lib in /opt/vp/ws/target/*/build/librocksdb-sys-*/out/librocksdb.a; do
    if [ -f "$lib" ]; then export ROCKSDB_LIB_DIR=$(dirname "$lib") ROCKSDB_STATIC=1; fi
done
cd "$W"
export CARGO_TARGET_DIR=$W/target
cargo build --offline >"$W/log" 2>&1 || { grep -A9 "^error" "$W/log"; exit 3; }
cd "$W" && timeout 200 "$W/target/debug/demo"
