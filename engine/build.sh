#!/bin/bash
# builds /verif/build/symx
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p $B
if [ -x $B/symx ] && [ $B/symx -nt $D/symx.cpp ] && [ $B/symx -nt $D/expr.cpp ] && [ $B/symx -nt $D/expr.h ]; then exit 0; fi
FL="-O2 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
g++ $FL -c $D/expr.cpp -o $B/expr.o & g++ $FL -c $D/symx.cpp -o $B/symx.o & wait %1; wait %2
g++ $B/expr.o $B/symx.o -o $B/symx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -l:libminisat.a -lz
mv $B/symx.tmp $B/symx
