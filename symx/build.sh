#!/bin/bash
# builds the symbolic executor into /verif/build (ignored by git)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build}; mkdir -p $B
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=$(command -v llvm-config-18 || command -v llvm-config || echo /usr/lib/llvm-18/bin/llvm-config)
g++ -O2 -std=c++17 -fno-strict-aliasing -w -I$($LC --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -I$Z/include $D/symx.cpp -o $B/symx.tmp$$ \
  -L$Z/lib -lz3 -Wl,-rpath,$Z/lib $($LC --ldflags) -lLLVM-18 -lpthread
mv $B/symx.tmp$$ $B/symx
