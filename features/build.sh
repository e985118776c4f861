#!/bin/bash
# Builds the probe with every set of features; the binaries go to target/features/bin.
# Cargo's verdict of each is the exit status in SET.status, its output in SET.log.
cd "$(dirname "$0")/.." || exit 3
export CARGO_TARGET_DIR="$PWD/target/features" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
bin="$CARGO_TARGET_DIR/bin"
rm -rf "$bin" "$CARGO_TARGET_DIR"/debug/.fingerprint/soupy-*
mkdir -p "$bin"
for r in "" regex; do for l in "" lenient; do for s in "" strict; do for x in "" xml; do
    echo "$r $l $s $x" | xargs | tr ' ' ','
done; done; done; done | cat - <(echo html; echo default-set) | while read -r set; do
    name=${set//,/+}
    cargo build --offline --locked --manifest-path "$PWD/features/Cargo.toml" --no-default-features --features "$set" >"$bin/${name:-none}.log" 2>&1
    status=$?
    [ $status = 0 ] && cp "$CARGO_TARGET_DIR/debug/fprobe" "$bin/${name:-none}"
    echo $status >"$bin/${name:-none}.status"
done
