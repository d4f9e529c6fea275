#!/bin/bash
# Builds the symbolic executor into build/{symx,symx-prep} (offline; LLVM 18 + Z3 wheel).
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=$D/../build
mkdir -p "$B"
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
cd "$B"
STAMP=$(cat "$D"/*.cc "$D"/*.h "$D"/build.sh | sha256sum | cut -c1-32)
[ -e symx ] && [ -e symx-prep ] && [ "$(cat symx.stamp 2>/dev/null)" = "$STAMP" ] && exit 0
CXX="g++ -std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=()
for f in solver lin exec builtins main prep; do $CXX -c "$D/$f.cc" -o symx_$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ -o symx.tmp symx_solver.o symx_lin.o symx_exec.o symx_builtins.o symx_main.o -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -lgmpxx -lgmp
g++ -o symx-prep.tmp symx_prep.o -L/usr/lib/llvm-18/lib -lLLVM-18
mv symx.tmp symx
mv symx-prep.tmp symx-prep
echo "$STAMP" > symx.stamp
