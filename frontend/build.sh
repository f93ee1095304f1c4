#!/bin/bash
# builds the frontend into /verif/.build (ignored by git)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../.build
mkdir -p "$out"
sum=$(sha256sum "$here/fgfront.cpp" | cut -c1-16)
if [ -x "$out/fgfront" ] && [ "$(cat "$out/fgfront.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
/usr/bin/g++ -std=c++17 -O1 -fno-rtti -w -I$L/include "$here/fgfront.cpp" -o "$tmp/fgfront" -L$L/lib -Wl,-rpath,$L/lib $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so 2>"$tmp/err" ||
  { cat "$tmp/err" >&2; exit 1; }
mv "$tmp/fgfront" "$out/fgfront"
echo "$sum" > "$out/fgfront.sum"
