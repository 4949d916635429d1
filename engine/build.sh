#!/bin/bash
# Builds the symbolic executor. usage: build.sh OUTDIR
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
inc=$(llvm-config-18 --includedir)
fl="-std=c++17 -O2 -fno-rtti -I$inc -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS -D_GNU_SOURCE -w"
clang++ $fl -c "$here/expr.cpp" -o "$out/expr.o.$$" & p=$!
clang++ $fl -c "$here/lin.cpp" -o "$out/lin.o.$$" & p2=$!
clang++ $fl -c "$here/symex.cpp" -o "$out/symex.o.$$"
wait $p; wait $p2
clang++ "$out/expr.o.$$" "$out/lin.o.$$" "$out/symex.o.$$" -o "$out/symex.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
rm -f "$out/expr.o.$$" "$out/lin.o.$$" "$out/symex.o.$$"
mv "$out/symex.$$" "$out/symex"
