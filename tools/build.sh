#!/bin/bash
# Builds the analysis front end into /verif/build/bin (offline).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build/bin"
mkdir -p "$out"
if [ ! -x "$out/irdump" ] || [ "$here/irdump.cpp" -nt "$out/irdump" ]; then
  /usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags 2>/dev/null | sed 's/-std=[^ ]*//' || true) \
    -I/usr/lib/llvm-18/include "$here/irdump.cpp" -o "$out/irdump.tmp" \
    -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$out/irdump.tmp" "$out/irdump"
fi
if [ ! -x "$out/decls" ] || [ "$here/decls.c" -nt "$out/decls" ]; then
  /usr/bin/clang-18 -O1 -I/usr/lib/llvm-18/include "$here/decls.c" -o "$out/decls.tmp" \
    -L/usr/lib/llvm-18/lib -lclang-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$out/decls.tmp" "$out/decls"
fi
