#!/bin/bash
# RUSTC_WRAPPER: compile the code under test and the workload with an edge
# callback (LLVM SanitizerCoverage), so that every basic-block edge is a
# scheduling point of the simulator. The simulator runtime and third-party
# crates are compiled as they are.
rustc="$1"; shift
prev=; name=; tgt=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  [ "$prev" = --target ] && tgt=1
  case $a in --target=*) tgt=1 ;; esac
  prev=$a
done
case "$name:$tgt" in
  mirror_mirror:1|harness:1|once_cell:1|ordered_float:1)
    exec "$rustc" "$@" -Cpasses=sancov-module \
      -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
