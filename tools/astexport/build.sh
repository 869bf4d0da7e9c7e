#!/bin/bash
# builds the exporter into /verif/build (only when its source changed)
set -e
cd "$(dirname "$0")"
OUT=${1:-$(cd ../.. && pwd)/build}
mkdir -p "$OUT"
H=$(sha256sum astexport.cc build.sh | sha256sum | cut -c1-16)
[ -x "$OUT/astexport-$H" ] && { echo "$OUT/astexport-$H"; exit 0; }
TMP="$OUT/.astexport-$H.$$"
clang++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS \
  -D__STDC_LIMIT_MACROS -D_GNU_SOURCE astexport.cc -o "$TMP" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$TMP" "$OUT/astexport-$H"
echo "$OUT/astexport-$H"
