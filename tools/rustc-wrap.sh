#!/bin/bash
# RUSTC_WRAPPER: adds scheduler callbacks (basic blocks, loads, stores) to the
# code under test only.
rustc=$1; shift
case " $* " in
*" --crate-name wayfinder "*|*" --crate-name wfshim "*|*" --crate-name lazy_static "*|*" --crate-name wfmatch "*)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
    -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
    -C llvm-args=-sanitizer-coverage-trace-stores -C codegen-units=1 ;;
*) exec "$rustc" "$@" ;;
esac
