#!/bin/sh
# RUSTC_WRAPPER: compile the code under test (and the workload crate that
# instantiates its generics) with a callback at every basic block.  The callback
# is the simulator's preemption point and its coverage probe.
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  prev=$a
done
case "$name" in
  cgar|once_cell|drive)
    exec "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$@" ;;
esac
