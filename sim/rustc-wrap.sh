#!/bin/sh
# cargo's RUSTC_WRAPPER: instruments the library under test and the simulator (generic code of the
# library is instantiated there) with a callback on every control-flow edge and every load and store; nothing else.
rustc="$1"; shift
case " $* " in
  *" --crate-name open_dis_rust "*|*" --crate-name dissim "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
