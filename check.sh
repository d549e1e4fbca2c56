#!/bin/bash
# ./check.sh <ID>            build the harness variant the property needs from /repo's working tree and run its check
# ./check.sh replay <FILE>   re-run one saved failing case
# ./check.sh build           build all variants
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough).
set -u
cd "$(dirname "$0")"
ROOT=$(pwd)
export VERIF_ROOT=$ROOT
export CARGO_NET_OFFLINE=true

find_rocks() {
    # a RocksDB static library of the repository's own build saves the compilation of RocksDB
    local lib
    for lib in /opt/vp/ws/target/*/build/librocksdb-sys-*/out/librocksdb.a; do
        if [ -f "$lib" ]; then dirname "$lib"; return; fi
    done
}

build() { # variant
    local v=$1 feat=()
    case $v in
        plain) ;;
        unicache) feat=(--features unicache) ;;
        ui) feat=(--features ui) ;;
        rocks) feat=(--features rocks)
            local d; d=$(find_rocks)
            if [ -n "$d" ]; then export ROCKSDB_LIB_DIR=$d ROCKSDB_STATIC=1; fi ;;
    esac
    mkdir -p target
    local log=target/build-$v.log
    # cargo goes by modification times: rebuild whenever the content of the repository's sources differs
    local sum
    sum=$(find /repo -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$sum" != "$(cat "target/$v/repo.sum" 2>/dev/null)" ]; then
        rm -rf "$ROOT/target/$v/release/.fingerprint"/omnipaxos* "$ROOT/target/$v/repo.sum"
    fi
    if ! (cd harness && CARGO_TARGET_DIR=$ROOT/target/$v cargo build --release --offline --locked "${feat[@]}") >"$log" 2>&1; then
        tail -60 "$log" >&2
        echo "check.sh: building the harness ($v) failed" >&2
        return 1
    fi
    echo "$sum" >"target/$v/repo.sum"
}

needs_plain() { # logging is compared with a build without it
    if [ "$1" = ui ]; then
        build plain || exit 2
        export VP_PLAIN=$ROOT/target/plain/release/vp
    fi
}

variant_of() {
    case $1 in
        C15) echo rocks ;;
        C18|C19) echo unicache ;;
        C25|C26) echo ui ;;
        *) echo plain ;;
    esac
}

case ${1:-} in
    build) for v in plain unicache rocks ui; do build $v || exit 2; done ;;
    replay)
        f=$2
        v=$(sed -n 's/.*"variant": *"\([a-z]*\)".*/\1/p' "$f" | head -1)
        [ -n "$v" ] || v=plain
        build "$v" || exit 2
        needs_plain "$v"
        exec "target/$v/release/vp" replay "$f" ;;
    C[0-9]*)
        v=$(variant_of "$1")
        build "$v" || exit 2
        needs_plain "$v"
        exec "target/$v/release/vp" check "$1" ;;
    *) echo "usage: $0 <property id> | replay <file> | build" >&2; exit 2 ;;
esac
