#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT/obj"
FL="-O2 -g1 -std=c++17 -fno-rtti -fno-exceptions $(llvm-config-18 --cppflags) -w"
clang++-18 $FL -c $D/expr.cpp -o $OUT/obj/expr.o & p1=$!
clang++-18 $FL -c $D/solver.cpp -o $OUT/obj/solver.o & p2=$!
clang++-18 $FL -c $D/main.cpp -o $OUT/obj/main.o
wait $p1; wait $p2
clang++-18 -o $OUT/engine $OUT/obj/main.o $OUT/obj/expr.o $OUT/obj/solver.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
