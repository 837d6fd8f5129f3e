#!/bin/bash
# Builds the symbolic executor (idempotent).
set -e
cd "$(dirname "$0")"
PY=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
OUT=${1:-../build}
mkdir -p "$OUT"
if [ ! -x "$OUT/symx" ] || [ -n "$(find . -newer "$OUT/symx" \( -name '*.cc' -o -name '*.h' -o -name '*.inc' \) | head -1)" ]; then
  clang++-18 -std=c++17 -O1 -w -I/usr/lib/llvm-18/include -I$PY/include engine.cc -o "$OUT/symx.tmp.$$" \
    -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 -L$PY/lib -Wl,-rpath,$PY/lib -lz3 -lgmpxx -lgmp -ldl -rdynamic
  mv "$OUT/symx.tmp.$$" "$OUT/symx"
fi
