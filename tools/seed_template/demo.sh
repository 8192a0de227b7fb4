#!/bin/bash
# Builds demo.cpp against the library built in /repo and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
LIB=$(find "$PWD/_build" -name libcore.a | head -1)
[ -n "$LIB" ] || { echo "library not built"; exit 99; }
INC=$(find "$PWD/core/src" -type d ! -path '*/app*' -printf '-I%p ')
g++ -std=c++23 -O0 -w -DNDEBUG -fno-strict-aliasing -msse2 -DHYDROBRICKS_MAJOR_VERSION=0 -DHYDROBRICKS_MINOR_VERSION=8 \
    -DHYDROBRICKS_PATCH_VERSION=6 $INC -isystem /usr/include/eigen3 -I"$D" "$D/demo.cpp" "$LIB" -o "$W/demo" \
    -lnetcdf -lyaml-cpp -lpthread -ldl || exit 98
cd "$W" && timeout 200 ./demo
