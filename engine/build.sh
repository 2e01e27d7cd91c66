#!/bin/bash
# builds the engine into $1 (directory)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3.*/site-packages/z3 | head -1)
if [ -f "$Z/include/z3++.h" ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
g++ -std=c++17 -O1 -g0 -w -fno-exceptions $(llvm-config-18 --cppflags) -fexceptions $ZI "$D/engine.cpp" -o "$O/engine.tmp" -L$(llvm-config-18 --libdir) -lLLVM-18 $ZL -lgmpxx -lgmp -lpthread
mv "$O/engine.tmp" "$O/engine"
