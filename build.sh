#!/bin/bash
# Builds the program exporter. Everything else is interpreted.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ build/irexport -nt exporter/irexport.cpp ]; then exit 0; fi
clang++-18 -O1 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS exporter/irexport.cpp -o build/irexport -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
