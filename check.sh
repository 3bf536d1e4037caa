#!/bin/sh
# Usage: check.sh <property>; builds the explorer against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/mc/target" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! (cd mc && cargo build --release --offline >"$log" 2>&1); then
    tail -50 "$log"
    rm -f "$log"
    echo "build failed"
    exit 3
fi
rm -f "$log"
MC_ROOT="$PWD" exec mc/target/release/mc check "$@"
