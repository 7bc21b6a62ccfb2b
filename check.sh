#!/bin/bash
# usage: check.sh ID quick|thorough [replay UNIT]
# Builds the harness against /repo's working tree and decides one property.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export MC_VERIF="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
ID=$1; TIER=$2; shift 2
[ "$ID" = C19 ] && CARGO_TARGET_DIR="$PWD/target/threads"
bash ./build.sh $([ "$ID" = C19 ] && echo threads) || { echo "ENGINE ERROR: build failed"; exit 2; }
BIN="$CARGO_TARGET_DIR/release/mc"
if [ "${1:-}" = replay ]; then exec "$BIN" replay "$ID" "$TIER" "$2"; fi
exec "$BIN" supervise "$ID" "$TIER"
