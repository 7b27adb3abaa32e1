#!/bin/bash
# RUSTC_WRAPPER: compiles the library under test and the crate that instantiates its generics with
# a callback at every control-flow edge, load, store and atomic operation. Everything else is compiled as usual.
# Frame pointers in all of it, so that callbacks can be told apart by where they are made.
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && { [ "$a" = algeo ] || [ "$a" = simops ]; }; then
    exec "$@" -Cforce-frame-pointers=yes -Cpasses='sancov-module function(tsan)' -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  fi
  [ "$prev" = --crate-name ] && [ "$a" = simrt ] && exec "$@" -Cforce-frame-pointers=yes
  prev=$a
done
exec "$@"
