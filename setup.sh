#!/bin/bash
# Builds the extractor from the committed source (offline; clang 18 development files are part of the sandbox).
set -e
cd "$(dirname "$0")"
mkdir -p build
src=sx/sx.cpp out=build/sx
if [ ! -x "$out" ] || [ "$src" -nt "$out" ]; then
    tmp=$(mktemp build/sx.XXXXXX)
    /usr/bin/g++ -std=c++17 -fno-rtti -O1 -w -I/usr/lib/llvm-18/include "$src" -o "$tmp" \
        -L/usr/lib/llvm-18/lib /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -lLLVM-18
    chmod 755 "$tmp"
    mv -f "$tmp" "$out"
fi
