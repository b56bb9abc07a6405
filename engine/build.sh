#!/bin/bash
# Builds the engine into $1 (default /verif/build/engine).
set -e
src=$(cd "$(dirname "$0")" && pwd); out=${1:-$src/../build/engine}; mkdir -p "$out"
CXX=/usr/bin/clang++-18; FL="-std=c++20 -O2 -fno-rtti -I/usr/lib/llvm-18/include"
pids=()
for f in term solver sweep exec main; do
  if [ ! -f "$out/$f.o" ] || [ "$src/$f.cc" -nt "$out/$f.o" ] || [ "$src/term.h" -nt "$out/$f.o" ] || [ "$src/solver.h" -nt "$out/$f.o" ] || [ "$src/exec.h" -nt "$out/$f.o" ]; then
    $CXX $FL -c "$src/$f.cc" -o "$out/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
$CXX "$out"/{term,solver,sweep,exec,main}.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread -o "$out/symx.tmp"
mv "$out/symx.tmp" "$out/symx"
