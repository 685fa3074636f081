#!/bin/bash
# Builds the symbolic executor into /verif/build (ignored by git).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
if [ ../build/xse -nt main.cpp ] && [ ../build/xse -nt expr.h ] && [ ../build/xse -nt xse.h ] && [ ../build/xse -nt prep.h ] && [ ../build/xse -nt exec.h ] && [ ../build/xse -nt step.inc ]; then exit 0; fi
g++ -std=c++17 -O2 -g1  -Wno-deprecated-declarations $(llvm-config-18 --cppflags) main.cpp -o ../build/xse.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -Wl,-rpath,/usr/lib/llvm-18/lib
mv ../build/xse.tmp ../build/xse
