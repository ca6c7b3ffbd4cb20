#!/bin/bash
# usage: build.sh SRC OUT
set -e
L=/usr/lib/llvm-18
CXX=${POLYX_CXX:-g++}
$CXX -O1 -std=c++17 -fno-rtti -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$1" -o "$2.tmp$$" -Wl,--no-as-needed -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
mv "$2.tmp$$" "$2"
