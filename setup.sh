#!/bin/bash
# builds the IR reader; nothing else needs building
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
clang++ -O1 $(llvm-config-18 --cxxflags) -fno-exceptions tool/irdump.cpp -o build/irdump.tmp $(llvm-config-18 --ldflags) -lLLVM-18
mv build/irdump.tmp build/irdump
echo "built build/irdump"
