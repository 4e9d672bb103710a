#!/bin/bash
# builds the engine (LLVM pass plugin + runtime) into $1
set -e
out=$1; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -O1 -fPIC -shared -fno-rtti -std=c++17 -w $(llvm-config-18 --cppflags) "$here/SymPass.cpp" -o "$out/SymPass.so" &
g++ -O2 -g1 -std=c++17 -w -fno-builtin-malloc -I"$here" -I$Z3D/include -c "$here/SymRuntime.cpp" -o "$out/SymRuntime.o" &
wait %1; wait %2
