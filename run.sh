#!/bin/bash
# run.sh <property id> [quick|thorough]: rebuilds the harness from /repo's working tree and runs
# one check. Exit 0: held; 1: VIOLATION lines; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. ./env.sh
build() {
    if ! (cd harness && cargo build --offline -q "$@") >build.log 2>&1; then
        grep -E '^error' -A9 build.log | head -60
        echo "ENGINE ERROR: the harness does not build"
        exit 2
    fi
}
mkdir -p evidence replays
build
case $id in
C03 | C04) build --release ;;
C14 | C15) build --features stream --target-dir "$CARGO_TARGET_DIR/stream" ;;
C20)
    if ! cargo build --offline -q --manifest-path /repo/rinklecate/Cargo.toml \
        --target-dir "$CARGO_TARGET_DIR/tool" >build.log 2>&1; then
        grep -E '^error' -A9 build.log | head -60
        echo "ENGINE ERROR: rinklecate does not build"
        exit 2
    fi
    ;;
esac
exec ./target/debug/mc "$id" --tier "$tier"
