#!/bin/sh
# RUSTC_WRAPPER: the library (and the explorer, where the library's generic code is instantiated) calls back at the start of every
# basic block and at every access to static memory
case " $* " in
    *" --crate-name obsidian "* | *" --crate-name preempt "*)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
            -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
        ;;
    *) exec "$@" ;;
esac
