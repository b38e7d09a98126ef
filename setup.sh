#!/bin/bash
# Builds every harness once.
cd "$(dirname "$0")" || exit 2
. ./env.sh
for d in h/*/; do
    [ -f "$d/src/main.rs" ] || continue
    (cd "$d" && cargo build --offline --quiet) || exit 1
done
