#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/sx)
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../build/sx}; mkdir -p "$(dirname "$out")"
[ "$out" -nt "$d/sx.cpp" ] && [ "$out" -nt "$d/sx2.inc" ] && [ "$out" -nt "$d/expr.h" ] && exit 0
clang++ -std=c++17 -O2 -fexceptions -w $(llvm-config-18 --cppflags) "$d/sx.cpp" -o "$out.tmp$$" $(llvm-config-18 --ldflags --libs core irreader demangle support) -lz3
mv "$out.tmp$$" "$out"
