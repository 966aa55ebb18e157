#!/bin/bash
# build the engine into $1
set -e
d=$(cd "$(dirname "$0")" && pwd); o=$1; mkdir -p "$o"
F="-O2 -std=c++17 -I/usr/include/llvm-c-18 -I/usr/include/llvm-18 -w"
g++ $F -c $d/core.cpp -o $o/core.o & p1=$!
g++ $F -c $d/vse.cpp -o $o/vse.o & p2=$!
wait $p1; wait $p2
g++ $o/core.o $o/vse.o -o $o/vse -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lminisat
rm -f $o/core.o $o/vse.o
