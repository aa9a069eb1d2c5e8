#!/bin/bash
# builds the symbolic executor into $1 (default: engine/symx)
cd "$(dirname "$0")" || exit 2
out=${1:-symx}
exec g++ -O2 -g0 -std=c++17 -w -I/usr/lib/llvm-18/include symx.cpp -o "$out" -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp
