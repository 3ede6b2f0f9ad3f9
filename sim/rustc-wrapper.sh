#!/bin/bash
# compiles the library under test (unmodified) and the instances of its generic entry points with
# LLVM's coverage instrumentation: a call before every branch target, load and store, which the
# simulator uses as preemption points and to report what was reached
rustc=$1; shift
case " $* " in
*" --crate-name actiondb "* | *" --crate-name adbcalls "*)
    exec "$rustc" "$@" -Cpasses=sancov-module \
        -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
