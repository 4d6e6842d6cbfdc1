#!/bin/bash
# builds the abstract interpreter into $1
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d) || exit 1
trap 'rm -f "$d"/*.o; rmdir "$d"' EXIT
for f in ucsa dom; do
  g++ -std=c++17 -O1 -fno-rtti -w -c $f.cc -o "$d/$f.o" -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fexceptions || touch "$d/fail.o" &
done
wait
[ -e "$d/fail.o" ] && exit 1
g++ "$d/ucsa.o" "$d/dom.o" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18
