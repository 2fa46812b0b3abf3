#!/bin/bash
# cargo calls this as: rustc-wrap.sh <rustc> <args...>
# Instruments the library under test and the scenario crate (which holds every
# monomorphised copy of the library's generic code), and nothing else.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  aoc_parse|aocsim)
    exec "$rustc" "$@" -C lto=off -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
esac
exec "$rustc" "$@"
