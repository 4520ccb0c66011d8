#!/bin/bash
# Builds the engine, the harness as wasm from /repo's current tree, and the native replay
# binary. Everything lands in git-ignored folders of /verif.
set -eu
set +u; source /opt/vp/env.sh; set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/out"
what="${1:-all}"
run() { # log, command...
    local log="$V/out/$1.log"; shift
    "$@" >"$log" 2>&1 || { tail -40 "$log"; echo "build failed: see $log"; return 1; }
}
if [ "$what" = all ] || [ "$what" = engine ]; then
    (cd "$V/engine" && CARGO_TARGET_DIR="$V/engine/target" run build-engine cargo build --release --offline) &
    e=$!
fi
if [ "$what" = all ] || [ "$what" = wasm ]; then
    (cd "$V/harness" && CARGO_TARGET_DIR="$V/target" run build-wasm cargo build --release --offline --lib --target wasm32-unknown-unknown) &
    w=$!
fi
if [ "$what" = all ] || [ "$what" = native ]; then
    (cd "$V/harness" && CARGO_TARGET_DIR="$V/target-native" run build-native cargo build --profile replay --offline --bin replay) &
    n=$!
fi
ok=0
for p in ${e:-} ${w:-} ${n:-}; do wait "$p" || ok=1; done
exit $ok
