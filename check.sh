#!/bin/bash
# ./check.sh ID            runs the check of one property (VERIF_SEED, VERIF_TIER)
# ./check.sh replay FILE   replays a failure
# ./check.sh build         builds only
# Builds the harness against the current tree of /repo first.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 LC_ALL=C.UTF-8
# /repo is always compiled anew, whatever its files' times are
rm -rf "$PWD"/target/release/.fingerprint/soupy-* "$PWD"/target/release/.fingerprint/vp-*
log=$(mktemp)
# The programs that C09 and C27 say can be written compile, if the plain one does
program() {
    export CARGO_TARGET_DIR="$PWD/target/programs"
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/soupy-*
    cargo build --offline --locked --manifest-path programs/Cargo.toml >"$log" 2>&1 || return 0
    cargo build --offline --locked --manifest-path programs/Cargo.toml --features "$2" >"$log" 2>&1 && return 0
    mkdir -p replays
    cp "$log" "replays/$1-program.txt"
    cat "$log"
    rm -f "$log"
    echo "VIOLATION property=$1 replay=replays/$1-program.txt"
    exit 1
}
case "${1:-} ${2:-}" in
C09* | replay*C09-*) (program C09 bounds) || exit 1 ;;
C27* | replay*C27-*) (program C27 threads) || exit 1 ;;
esac
if ! cargo build --offline --locked --release --manifest-path "$PWD/harness/Cargo.toml" >"$log" 2>&1; then
    cat "$log"
    rm -f "$log"
    echo "ERROR: the harness does not build"
    exit 3
fi
rm -f "$log"
# C26 is about builds with other sets of features
case "${1:-} ${2:-}" in
build* | C26* | replay*C26-*) features/build.sh || exit 3 ;;
esac
case "${1:-}" in
build) exit 0 ;;
replay) [ "${2##*-}" = program.txt ] || exec target/release/vp replay "$2" ;;
*) exec target/release/vp check "$1" ;;
esac
