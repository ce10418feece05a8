#!/bin/bash
# Builds the symbolic executor into /verif/engine/bin (git-ignored).
set -eu
cd "$(dirname "$0")"
mkdir -p bin
H=$(cat apexsym.cpp expr.h build.sh | sha256sum | cut -c1-16)
[ -x bin/apexsym ] && [ "$(cat bin/stamp 2>/dev/null)" = "$H" ] && exit 0
clang++ -O2 -g0 -std=c++17 -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -fexceptions -Wno-everything apexsym.cpp -o bin/apexsym.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv bin/apexsym.tmp.$$ bin/apexsym
echo "$H" > bin/stamp
