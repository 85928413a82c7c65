#!/bin/bash
# Instruments the crates under test (and the crates that instantiate their generics) with a callback per
# basic block: the simulator's preemption points, and its coverage.
rustc=$1; shift
name=; prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
  tn_*|state_sync|simbase|simnode|worker_gateway)
    exec "$rustc" "$@" --cfg tn_sim -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
