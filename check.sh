#!/bin/bash
# bash check.sh build | check --prop ID [--tier quick|thorough] | replay FILE | show ... | bench ...
# Rebuilds the simulator with the programs' sources as they are in /repo now, then runs it.
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$DIR" RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
unset RUST_LOG RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$DIR/evidence" "$DIR/replays"
build() {
    exec 9>"$DIR/.build.tmp"
    flock 9
    python3 "$DIR/tools/gen.py" || return 1
    (cd "$DIR/sim" && cargo build --offline -q 2>"$DIR/build.log.tmp") || { grep -E -A12 '^error' "$DIR/build.log.tmp" | head -60 >&2; return 1; }
    flock -u 9
}
build || { echo "harness error: the simulator does not build against /repo" >&2; exit 2; }
[ "${1:-}" = build ] && exit 0
exec "$DIR/sim/target/debug/simcheck" "$@"
