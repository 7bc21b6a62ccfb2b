#!/bin/bash
# Compiler wrapper of the C19 build: thread instrumentation for the library under test, nothing else.
r=$1; shift
export RUSTC_BOOTSTRAP=1
name=; prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
    piston_meta|piston_meta_search|mc_shim) exec "$r" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *) exec "$r" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
