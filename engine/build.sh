#!/bin/bash
# builds the abstract interpreter into /verif/build (git-ignored)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
SUM=$(cat "$D"/*.cpp "$D"/*.h | sha256sum | cut -d' ' -f1)
if [ -x "$B/mbai" ] && [ "$(cat "$B/mbai.sum" 2>/dev/null)" = "$SUM" ]; then exit 0; fi
CXX=/usr/bin/clang++-18; [ -x $CXX ] || CXX=/usr/lib/llvm-18/bin/clang++
$CXX -std=c++17 -O2 -g0 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-exceptions -funwind-tables \
  "$D/mbai.cpp" -o "$B/mbai.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/mbai.tmp" "$B/mbai"; echo "$SUM" > "$B/mbai.sum"
