#!/bin/bash
# builds the symbolic executor into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
mkdir -p "$out"
g++ -std=c++20 -O2 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions \
  "$here/symex.cpp" -o "$out/symex.tmp" $(llvm-config-18 --ldflags --libs) -lz3
mv "$out/symex.tmp" "$out/symex"
