#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/vsym)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/vsym}; mkdir -p "$(dirname "$OUT")"
T=$(mktemp "$OUT.XXXXXX")
g++ -O2 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags) -c "$D/expr.cpp" -o "$T.e.o" &
g++ -O2 -std=c++17 -fno-rtti -fexceptions $(llvm-config-18 --cppflags) -c "$D/vsym.cpp" -o "$T.v.o"
wait
g++ -o "$T" "$T.v.o" "$T.e.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
rm -f "$T.v.o" "$T.e.o"; chmod 755 "$T"; mv -f "$T" "$OUT"
