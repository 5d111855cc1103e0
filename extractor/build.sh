#!/bin/bash
# Builds the extractor into $1.
set -e
L=/usr/lib/llvm-18/lib
CP=$(ls $L/libclang-cpp.so* /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* 2>/dev/null | head -1)
LL=$(ls $L/libLLVM-18.so $L/libLLVM.so* 2>/dev/null | head -1)
CXX=/usr/bin/clang++-18; [ -x $CXX ] || CXX=clang++
exec $CXX -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$(dirname "$0")/extract.cc" -o "$1" "$CP" "$LL" -Wl,-rpath,$L
