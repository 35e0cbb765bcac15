#!/bin/bash
# builds demo.cc against /repo's library (run after build.sh) and runs it
D=$(dirname "$(readlink -f "$0")")
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FL="-std=c++17 -g -O0 -w -DINCLUDE_FILESYSTEM -include cstdint -I$D -I$R/src -I$R -I$R/extern/hgdb/include"
for f in codegen hash ir; do g++ $FL -c "$R/src/$f.cc" -o "$T/$f.o" & done
g++ $FL -c "$D/demo.cc" -o "$T/demo.o" &
wait
L="$R/_build/src/libkratos.a"
[ -f "$L" ] || { echo "no library"; exit 2; }
g++ "$T"/demo.o "$T"/codegen.o "$T"/hash.o "$T"/ir.o -Wl,--start-group "$L" -Wl,--end-group -lfmt -lpthread -ldl -o "$T/demo" 2>"$T/err" ||
  g++ "$T"/demo.o "$T"/codegen.o "$T"/hash.o "$T"/ir.o "$L" -lfmt -lpthread -ldl -lstdc++fs -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
