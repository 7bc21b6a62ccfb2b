#!/bin/bash
# Builds the harness from /repo's current working tree. With `threads`: the library instrumented at every memory access (C19).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
T=target
if [ "${1:-}" = threads ]; then T=target/threads; export RUSTC_WRAPPER="$PWD/harness/instrument.sh"; fi
export CARGO_TARGET_DIR="$PWD/$T" CARGO_NET_OFFLINE=true
mkdir -p $T out
exec 9>$T/.lock; flock 9
REG=$(ls -d /root/.cargo/registry/src/*/read_token-1.0.0/src/lib.rs "${CARGO_HOME:-/root/.cargo}"/registry/src/*/read_token-1.0.0/src/lib.rs 2>/dev/null | head -1)
# The instrumented copy of read_token must be the registry's crate plus hook lines.
if [ -n "$REG" ] && ! diff -q -B <(grep -v '// HOOK' harness/read_token/src/lib.rs) <(sed '/^#\[cfg(test)\]/,$d' "$REG") >/dev/null; then
    echo "read_token copy differs from the registry's crate"; exit 2
fi
# Rebuild whenever the sources differ from those of the last build, whatever their time stamps say.
HASH=$( (cd /repo && find src assets Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-64)
if [ "$(cat $T/.repo-hash 2>/dev/null)" != "$HASH" ]; then
    rm -f $T/.repo-hash
    cargo clean -q --offline --release --manifest-path harness/Cargo.toml -p piston_meta -p piston_meta_search 2>/dev/null
fi
cargo build -q --offline --release --manifest-path harness/Cargo.toml 2>$T/build.log || { tail -40 $T/build.log; exit 2; }
echo "$HASH" > $T/.repo-hash
