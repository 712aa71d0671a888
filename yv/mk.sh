#!/bin/bash
# Build the verifier.  usage: mk.sh OUTDIR
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include "$D/yv.cpp" -o "$O/yv.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
mv "$O/yv.tmp" "$O/yv"
clang-18 -O1 -Xclang -disable-llvm-passes -fno-builtin -Wno-everything -c -emit-llvm "$D/rtc.c" -o "$O/rtc.bc"
clang++-18 -std=c++17 -O1 -Xclang -disable-llvm-passes -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-everything -c -emit-llvm "$D/rt.cpp" -o "$O/rt.bc"
llvm-link-18 "$O/rt.bc" "$O/rtc.bc" -o "$O/rtall.bc"
g++ -std=c++17 -O1 -w -c "$D/native.cpp" -o "$O/native.o"
