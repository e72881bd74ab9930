#!/bin/bash
# Builds the explorer (independent of /repo).
set -e
cd "$(dirname "$0")"; out=${1:-/verif/build}; mkdir -p $out/obj
FL="-std=c++17 -O2 -march=x86-64-v2 -fno-fast-math -ffp-contract=off -frounding-math -Wall -Wno-unused-function -Wno-misleading-indentation"
pids=()
for f in *.cc; do
  o=$out/obj/${f%.cc}.o
  x=""; [ $f = vec.cc ] && x="-mavx512f -mavx2 -mfma"
  if [ ! -f $o ] || [ -n "$(find . -name '*.h' -newer $o -o -name $f -newer $o)" ]; then clang++ $FL $x -c $f -o $o & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
clang++ $out/obj/*.o -o $out/vh -lmvec -lm -ldl -lpthread
