#!/bin/bash
# Builds the extractor into /verif/build (git-ignored).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
mkdir -p "$out"
if [ ! -x "$out/cxxexport" ] || [ "$here/cxxexport.cpp" -nt "$out/cxxexport" ]; then
  clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$here/cxxexport.cpp" -o "$out/cxxexport.tmp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
  mv "$out/cxxexport.tmp" "$out/cxxexport"
fi
