#!/bin/bash
# Builds the symbolic executor (offline; LLVM 18 and z3 of the sandbox). No-op when up to date.
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
out=${VFSE_BUILD:-$here/../build}
mkdir -p "$out"
key=$(cat "$here"/*.cpp "$here"/*.h "$here/build.sh" | sha256sum | cut -c1-16)
if [ -x "$out/vfse" ] && [ "$(cat "$out/vfse.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="-L$Z/lib -Wl,-rpath,$Z/lib -lz3"; else ZI=""; ZL="-lz3"; fi
F="-std=c++17 -O2 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $ZI"
tmp=$(mktemp -d "$out/eng.XXXXXX")
pids=()
for s in expr solver vfse; do g++ $F -c "$here/$s.cpp" -o "$tmp/$s.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$tmp"/*.o -o "$tmp/vfse" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
mv "$tmp/vfse" "$out/vfse"; echo "$key" > "$out/vfse.key"; rm -rf "$tmp"
