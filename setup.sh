#!/bin/bash
# builds the IR reader used by every check (offline; needs clang/llvm 18 only)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
if [ ! -x build/irdump ] || [ irv/irdump.cpp -nt build/irdump ]; then
  clang++-18 -O1 $(llvm-config-18 --cxxflags) -fexceptions irv/irdump.cpp -o build/irdump.$$ $(llvm-config-18 --ldflags) -lLLVM-18
  mv build/irdump.$$ build/irdump
fi
