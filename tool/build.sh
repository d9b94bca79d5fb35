#!/bin/bash
# builds the AST front end once (setup_cmd); needs only the preinstalled LLVM 18 dev files
set -e
cd "$(dirname "$0")"
mkdir -p ../build
L=/usr/lib/llvm-18
if [ ! -x ../build/hiopdump ] || [ hiopdump.cpp -nt ../build/hiopdump ]; then
  /usr/bin/g++ -std=c++17 -O1 -fno-rtti -I$L/include hiopdump.cpp -o ../build/hiopdump.tmp -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
  mv ../build/hiopdump.tmp ../build/hiopdump
fi
