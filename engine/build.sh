#!/bin/bash
# builds the analysers into /verif/engine/build (ignored by git)
set -e
cd "$(dirname "$0")"
mkdir -p build
CXXF=$(llvm-config-18 --cxxflags | sed 's/-std=c++17//')
one() { # output, libraries, sources
    if [ build/$1 -nt $3 ] && [ build/$1 -nt dom.hpp ]; then return 0; fi
    /usr/bin/clang++-18 -std=c++20 -O2 $CXXF -fexceptions -w $3 -o build/$1.tmp $(llvm-config-18 --ldflags --libs $2)
    mv build/$1.tmp build/$1
}
one vpai "core irreader analysis support" ai.cpp &
one vpts "core irreader analysis support passes" ts.cpp &
wait %1; wait %2
