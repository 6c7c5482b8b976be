#!/bin/bash
# Builds the symbolic executor: build.sh OUT
set -eu
cd "$(dirname "$0")"
g++ -O2 -w -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-DNDEBUG//') -fexceptions lsym.cpp -o "$1" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3
