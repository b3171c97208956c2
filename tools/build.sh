#!/bin/bash
# Builds the extractor into /verif/.build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build}
mkdir -p "$out"
h=$(sha256sum "$here/extract.cpp" | cut -c1-16)
if [ -x "$out/extract" ] && [ "$(cat "$out/extract.sum" 2>/dev/null)" = "$h" ]; then exit 0; fi
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w \
  "$here/extract.cpp" -o "$out/extract.tmp.$$" \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libLLVM.so.18.1
mv "$out/extract.tmp.$$" "$out/extract"
echo "$h" > "$out/extract.sum"
