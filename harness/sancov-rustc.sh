#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test, and nothing else, with SanitizerCoverage edge callbacks.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = yamd ]; then
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  prev="$a"
done
exec "$rustc" "$@"
