#!/bin/bash
# Builds demo.cpp against the tree in the current directory and its built libraries, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
INC=$(find "$R/src/app" -type d -not -path '*/ut' -not -path '*/ut/*' -printf '-I%p ')
LIBS=$(find "$R/_build/src" -name '*.a' | sort)
g++ -std=c++20 -O0 -g1 -w -fsanitize=address,undefined -I"$D" $INC "$D/demo.cpp" -Wl,--start-group $LIBS -Wl,--end-group -lpthread -o "$T/demo" || exit 8
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
