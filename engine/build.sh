#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/sxe)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build/sxe}"
mkdir -p "$(dirname "$out")"
g++ -O2 -std=c++17 -w "$here/engine.cpp" -o "$out.tmp.$$" $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -frtti $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$out.tmp.$$" "$out"
