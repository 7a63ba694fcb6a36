#!/bin/bash
# RUSTC_WRAPPER: compiles the crate in which the library's generic code is
# monomorphised (simshim), and the library crate itself, with LLVM SanitizerCoverage, so that every basic-block
# edge, load and store of the library calls into the simulator runtime (simrt).
# Non-generic library code gets a hook in every block (a loop without memory accesses
# must still take steps); in generic code the edges that others imply are pruned.
prune=1
case " $* " in
  *" --crate-name rustdht "*|*" --crate-name transpose "*) prune=0 ;;
esac
case " $* " in
  *" --crate-name simshim "*|*" --crate-name rustdht "*|*" --crate-name transpose "*)
    exec "$@" -C passes=sancov-module -C codegen-units=8 \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-prune-blocks=$prune \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$@" ;;
esac
