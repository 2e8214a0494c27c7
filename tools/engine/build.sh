#!/bin/bash
# build.sh OUTDIR : build the symbolic executors
set -e
here=$(cd "$(dirname "$0")" && pwd)
ZD=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LD=/usr/lib/llvm-18
mkdir -p "$1"
pids=()
for f in term flsym; do g++ -O2 -std=c++17 -w -I$ZD/include -I"$here" -c "$here/$f.cc" -o "$1/$f.o" & pids+=($!); done
g++ -O2 -std=c++17 -w -fexceptions -I$LD/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -I$ZD/include -I"$here" -c "$here/llsym.cc" -o "$1/llsym.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ -o "$1/flsym.tmp" "$1/term.o" "$1/flsym.o" -L$ZD/lib -lz3 -Wl,-rpath,$ZD/lib
g++ -o "$1/llsym.tmp" "$1/term.o" "$1/llsym.o" -L$ZD/lib -lz3 -Wl,-rpath,$ZD/lib -L$LD/lib -lLLVM-18 -Wl,-rpath,$LD/lib
mv "$1/flsym.tmp" "$1/flsym"; mv "$1/llsym.tmp" "$1/llsym"
