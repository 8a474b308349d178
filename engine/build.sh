#!/bin/bash
# builds the analyser into $1 (default /verif-relative .build/absint)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build/absint}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/absint.cpp" ] && [ "$out" -nt "$here/models.inc" ] && [ "$out" -nt "$here/step.inc" ] && [ "$out" -nt "$here/main.inc" ]; then exit 0; fi
tmp=$out.$$.tmp
g++ -std=c++17 -O2 -w -fno-rtti "$here/absint.cpp" -o "$tmp" $(llvm-config --cxxflags | sed 's/-std=[^ ]*//') -fexceptions $(llvm-config --ldflags --libs --link-shared core irreader passes)
mv -f "$tmp" "$out"
