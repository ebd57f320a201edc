#!/bin/bash
# Compiles the code under test with a callback at every basic block.
rustc=$1; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
svd_rs|svd_parser|svd_encoder|once_cell)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores ;;
*) exec "$rustc" "$@" ;;
esac
