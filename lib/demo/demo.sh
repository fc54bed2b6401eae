#!/bin/bash
# Builds the library from the current directory with demo.cpp and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
F="-std=c++17 -O0 -w -fPIC -mf16c -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 -DDRJIT_ENABLE_CUDA=1 -DDRJIT_ENABLE_OPTIX=1 -DLZ4LIB_VISIBILITY= -DDRJIT_BUILD=1 -I$here/stubs -I$repo/include -I$repo -I$repo/ext/lz4 -I$repo/resources"
for k in kernels_dict kernels_75; do { echo '#include "resources/kernels.h"'; echo "const char $k[] = {"; od -An -v -tu1 "$repo/resources/$k.lz4" | sed 's/[0-9]\+/(char) &,/g'; echo "};"; } > "$w/$k.c"; done
{ for f in $(ls "$repo"/src/*.cpp | grep -v -e metal) "$here/stubs/nanothread/nanothread.cpp" "$here/demo.cpp"; do echo "clang++-18 $F -c $f -o $w/$(basename "$f").o"; done
  for f in "$repo"/ext/lz4/lz4.c "$repo"/ext/lz4/lz4hc.c "$repo"/ext/lz4/xxhash.c "$w"/kernels_*.c; do echo "clang-18 ${F#-std=c++17} -c $f -o $w/$(basename "$f").o"; done; } | xargs -P 8 -I{} sh -c "{}"
clang++-18 "$w"/*.o -o "$w/demo" -ldl -lpthread
for v in 17 18 16; do l=/usr/lib/x86_64-linux-gnu/libLLVM-$v.so; [ -e $l ] && break; done
cd "$w"
HOME="$w" DRJIT_LIBLLVM_PATH=$l timeout 120 "$w/demo"
