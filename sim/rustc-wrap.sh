#!/bin/bash
# RUSTC_WRAPPER: the library under test is compiled with a call per basic block,
# where the simulated scheduler can take the processor away (src/os.rs).
rustc=$1
shift
case " $* " in
*" --crate-name anothertls "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-pc-table
    ;;
esac
exec "$rustc" "$@"
