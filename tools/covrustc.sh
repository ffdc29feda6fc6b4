#!/bin/sh
# RUSTC_WRAPPER of the guided build: coverage counters in the crate under test only.
rustc=$1
shift
case " $* " in
*" --crate-name nobject_rs "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
*) exec "$rustc" "$@" ;;
esac
