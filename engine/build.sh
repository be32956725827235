#!/bin/bash
# Builds the symbolic executor into /verif/build/msym (offline; LLVM 18 + Z3 from the preinstalled toolchains).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out/obj"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX="g++ -std=c++17 -O2 -g1 -fno-rtti -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I$Z3/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in expr interval solver exec handlers main; do
  o=$out/obj/$f.o
  if [ ! -e "$o" ] || [ -n "$(find "$here" -newer "$o" \( -name $f.cpp -o -name '*.h' \))" ]; then
    $CXX -c "$here/$f.cpp" -o "$o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$out/msym.tmp" "$out"/obj/{expr,interval,solver,exec,handlers,main}.o /usr/lib/llvm-18/lib/libLLVM-18.so "$Z3/lib/libz3.so" -Wl,-rpath,/usr/lib/llvm-18/lib -Wl,-rpath,"$Z3/lib"
mv "$out/msym.tmp" "$out/msym"
