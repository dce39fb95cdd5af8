#!/bin/bash
# RUSTC_WRAPPER: compiles cmacro (and the crate that holds its generic entry points) with a call at every
# basic block, through which the simulator counts steps, preempts threads and sees which code was reached.
rustc="$1"; shift
case " $* " in
  *" --crate-name cmacro "*|*" --crate-name subject "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table ;;
esac
exec "$rustc" "$@"
