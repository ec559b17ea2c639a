#!/bin/bash
# builds the symbolic executor into $1 (default /verif/.build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../.build}; mkdir -p "$O/obj"
INC="-I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS"
for f in expr solve real symex; do
  g++ -std=c++17 -O2 -frounding-math -ffp-contract=off -w $INC -c $D/$f.cc -o $O/obj/$f.o & P="$P $!"
done
for p in $P; do wait $p; done
g++ -o $O/symex.tmp $O/obj/*.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp -lpthread
mv $O/symex.tmp $O/symex
