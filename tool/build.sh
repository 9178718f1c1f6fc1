#!/bin/bash
# builds the extractor into /verif/_build (ignored by git)
set -e
cd "$(dirname "$0")"
B=../_build; mkdir -p $B
if [ ! -x $B/cppvc-extract ] || [ extract.cpp -nt $B/cppvc-extract ]; then
  g++ -O1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') extract.cpp \
     -o $B/cppvc-extract.tmp /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
  mv $B/cppvc-extract.tmp $B/cppvc-extract
fi
