#!/bin/bash
# builds and runs the demonstration beside this file against the library built in the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -Iinclude -Isource -isystem /usr/include/eigen3 "$here/demo.cpp" \
   _build/libHimalaya.a _build/libDSZ.a -lgfortran -lpthread -o "$tmp/demo" || exit 2
"$tmp/demo"
