#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/rsym); rebuilt only when its sources are newer.
set -e
src=$(cd "$(dirname "$0")" && pwd)
out=${1:-$src/../build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
stamp=$(cat "$src"/*.cpp "$src"/*.h "$src/build.sh" | sha256sum | cut -c1-16)
if [ -x "$out/rsym" ] && [ "$(cat "$out/rsym.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
tmp=$(mktemp -d "$out/eng.XXXXXX")
for f in expr order gf2 piecewise solver mem translate exec; do
    g++ -std=c++20 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -c "$src/$f.cpp" -o "$tmp/$f.o" &
done
wait
g++ "$tmp"/*.o -o "$tmp/rsym" -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib
mv "$tmp/rsym" "$out/rsym"
echo "$stamp" > "$out/rsym.stamp"
rm -rf "$tmp"
