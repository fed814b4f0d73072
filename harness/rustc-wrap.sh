#!/bin/bash
# Adds edge instrumentation to the crate under test only (used for coverage guidance and to count
# executed edges); everything else is compiled as cargo asks.
rustc="$1"; shift
case " $* " in
  *" --crate-name jbcrs "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
