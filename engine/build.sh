#!/bin/bash
# Builds the engine into $1 (default /verif/build/engine).
set -e
here="$(cd "$(dirname "$0")" && pwd)"; out="${1:-$here/../build/engine}"; mkdir -p "$(dirname "$out")"
LLVM=/usr/lib/llvm-18
clang++ -std=c++17 -O2 -fno-rtti -w -I$LLVM/include -o "$out.tmp.$$" "$here/engine.cpp" -L$LLVM/lib -lLLVM-18 -lz3 -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS
mv "$out.tmp.$$" "$out"
