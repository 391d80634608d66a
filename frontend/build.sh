#!/bin/bash
# build.sh OUT : builds the extractor against the installed clang-18 libraries
set -e
H="$(cd "$(dirname "$0")" && pwd)"
exec clang++-18 -O0 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$H/extract.cpp" -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
