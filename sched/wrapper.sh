#!/bin/sh
# rustc wrapper: watch the memory accesses of the crates under test (and of rayon and the harness, which hold
# their generic code), and of nothing else
rustc=$1; shift
n=; p=
for a in "$@"; do [ "$p" = --crate-name ] && n=$a; p=$a; done
case "$n" in
  rstsr*|rayon|p13*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=1 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
  *) exec "$rustc" "$@";;
esac
