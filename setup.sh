#!/bin/bash
# builds the IR dumper used by the analyses (offline; LLVM 18 development files are preinstalled)
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/irdump ] || [ tools/irdump.cpp -nt build/irdump ]; then
  clang++-18 -O1 -fno-rtti $(llvm-config-18 --cxxflags) tools/irdump.cpp -o build/irdump.$$ -L"$(llvm-config-18 --libdir)" -lLLVM-18
  mv build/irdump.$$ build/irdump
fi
