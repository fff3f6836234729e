#!/bin/bash
# usage: run.sh setup | check <property> [quick|thorough] | replay <file>
# Builds the explorer against /repo's current working tree and runs one check.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true VERIF_DIR="$here"
target=$here/mc/target
# C25 counts the work of a call: for it everything is compiled with a counter in every basic block
counting() {
    target=$here/mc/target-work out=x86_64-unknown-linux-gnu/release
    options="--target x86_64-unknown-linux-gnu"
    export RUSTFLAGS="--cfg work -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
}
out=release options=
build() {
    # sources may carry any modification time (copies, checkouts): always rebuild the library itself
    local d
    for d in "$target"/$out/.fingerprint/mvdparser-*; do
        [ -e "$d" ] && find "$d" -mindepth 1 -delete && rmdir "$d"
    done
    local log
    if ! log=$(cd "$here/mc" && CARGO_TARGET_DIR=$target cargo build --release --offline --locked $options 2>&1); then
        printf '%s\n' "$log" | tail -n 60 >&2
        echo "ERROR: the explorer does not build against /repo" >&2
        exit 2
    fi
}
case "${1:-}" in
setup)
    build
    counting
    build
    ;;
check)
    [ "$2" = C25 ] && counting
    build
    exec "$target/$out/mc" run "$2" "${3:-${VERIF_TIER:-quick}}"
    ;;
replay)
    grep -q '"property": *"C25"' "$2" && counting
    build
    exec "$target/$out/mc" replay "$2"
    ;;
*)
    echo "usage: $0 setup | check <property> [quick|thorough] | replay <file>" >&2
    exit 2
    ;;
esac
