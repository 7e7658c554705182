#!/bin/bash
# RUSTC_WRAPPER: put SanitizerCoverage edge callbacks into the crate under test only
rustc="$1"; shift
case " $* " in
  *" --crate-name ncas "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C codegen-units=1 ;;
  *) exec "$rustc" "$@" ;;
esac
