#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build}
mkdir -p "$OUT"
Z3P=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -I$Z3P/include "$D/symx.cc" -o "$OUT/symx.tmp" \
  -L$Z3P/lib -lz3 -Wl,-rpath,$Z3P/lib $(llvm-config-18 --ldflags --libs core irreader support demangle) -lpthread
mv "$OUT/symx.tmp" "$OUT/symx"
