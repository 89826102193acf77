#!/bin/sh
# RUSTC_WRAPPER: instruments the code under test (fxd) and the shim that instantiates its inline
# functions (fxdshim), and nothing else.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  fxd|fxdshim)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-trace-compares \
      -C codegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
