#!/bin/bash
# Builds the symbolic executor into /verif/build (kept out of git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(dirname "$here")/build
mkdir -p "$out"
src="$here/main.cpp $here/exec.hpp $here/builtins.inc $here/expr.hpp $here/mem.hpp $here/engine.hpp $here/program.hpp $here/instrument.hpp"
sum=$(cat $src "$here/build.sh" | sha256sum | cut -d' ' -f1)
if [ -x "$out/symir" ] && [ "$(cat "$out/symir.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
g++ -std=c++20 -O2 -g1 -fno-rtti -w -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/main.cpp" -o "$out/symir.$$" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$out/symir.$$" "$out/symir"
echo "$sum" > "$out/symir.sum"
