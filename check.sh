#!/bin/bash
# Build the checks from /repo's current working tree and run one of them.
#   check.sh P01            quick or thorough by VERIF_TIER
#   check.sh P01 replay F   evaluate one saved case
#   check.sh --build        only build
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export RUSTFLAGS=""
mkdir -p target evidence replays
log="$VERIF_DIR/target/build.log"
build() {
    (cd harness && flock "$VERIF_DIR/target/.lock" cargo build --profile "$1" --offline --locked) >"$log" 2>&1 && return
    tail -n 60 "$log" >&2
    echo "check.sh: the checks do not build against /repo" >&2
    exit 2
}
build release
[ "${1:-}" = "--build" ] && exit 0
# The thorough run starts with a quick one on the code as it's in production, without debug assertions
# and overflow checks. What that finds has to be replayed like that, too.
if [ "${2:-}" = "replay" ]; then
    if grep -q '"debug_assertions": false' "$3"; then
        build plain
        exec "$CARGO_TARGET_DIR/plain/checks" "$@"
    fi
elif [ "${VERIF_TIER:-quick}" = "thorough" ]; then
    build plain
    VERIF_TIER=quick "$CARGO_TARGET_DIR/plain/checks" "$@" || exit
fi
exec "$CARGO_TARGET_DIR/release/checks" "$@"
