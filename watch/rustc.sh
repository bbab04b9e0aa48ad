#!/bin/sh
# RUSTC_WRAPPER of the watched machines: the crate under test and the simulator are compiled so that
# every load and store is announced by a call (the instrumentation of the address sanitizer, none of
# its runtime); hwwatch, which takes those calls, is compiled without it.
case " $* " in
*" --crate-name highway "* | *" --crate-name hwsim "*)
    exec "$@" -Zsanitizer=address -Zexternal-clangrt -Cllvm-args=-asan-instrumentation-with-call-threshold=0 \
        -Cllvm-args=-asan-use-after-return=never -Cllvm-args=-asan-force-dynamic-shadow=1 \
        -Cllvm-args=-asan-max-inline-poisoning-size=0 -Cllvm-args=-asan-globals=0 -Cllvm-args=-asan-opt=0
    ;;
*) exec "$@" ;;
esac
