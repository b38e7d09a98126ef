#!/bin/bash
# ./check.sh <harness> <property> [--replay FILE]: rebuilds harness against /repo and explores.
cd "$(dirname "$0")" || exit 2
export VMC_DIR="$PWD"
. ./env.sh
cd "h/$1" || exit 2
log=$(mktemp)
if ! cargo build --offline --quiet >"$log" 2>&1; then
    tail -50 "$log" >&2; rm -f "$log"
    echo "check.sh: harness $1 does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$1" "${@:2}"
