#!/bin/bash
# builds the engine; usage: build.sh OUTDIR
set -e
d=$(cd "$(dirname "$0")" && pwd); out=${1:-$d/../build}; mkdir -p "$out"
src="$d/sx.cpp $d/blast.hpp $d/expr.hpp"; h=$(cat $src "$0" | sha256sum | cut -d' ' -f1)
if [ -x "$out/sx" ] && [ "$(cat $out/sx.hash 2>/dev/null)" = "$h" ]; then exit 0; fi
g++ -std=c++17 -O2 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//') -fexceptions "$d/sx.cpp" -o "$out/sx.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -lminisat -lz -lpthread
mv "$out/sx.tmp" "$out/sx"; echo $h > "$out/sx.hash"
