#!/bin/bash
# builds the analysers into /verif/build (idempotent)
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
for t in vpa effects; do
    stamp=$(cat "$here/$t.cpp" "$here/bdd.h" "$here/build.sh" | sha256sum | cut -d' ' -f1)
    if [ -x "$out/$t" ] && [ "$(cat "$out/$t.stamp" 2>/dev/null)" = "$stamp" ]; then continue; fi
    tmp=$out/$t.$$
    /usr/bin/g++ -std=c++17 -O2 -fexceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
        -isystem /usr/lib/llvm-18/include "$here/$t.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
    mv "$tmp" "$out/$t"
    echo "$stamp" > "$out/$t.stamp"
done
