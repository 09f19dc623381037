#!/bin/bash
# Compiles the driver against the library built by build.sh and runs the demonstration in a scratch folder.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -DTAG_PARSER_STATIC -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -I/repo/_build/shim -I/repo/_build -isystem /usr/include/martchus-c++utilities "$here/tp.cpp" /repo/_build/libtagparser.a \
    -o "$tmp/tp" /usr/lib/x86_64-linux-gnu/libmartchus-c++utilities.so.5 -lz -pthread || { echo "compile failed"; exit 2; }
cd "$tmp" && TP="$tmp/tp" PYTHONPATH="$here" timeout 250 python3 -B "$here/demo.py"
