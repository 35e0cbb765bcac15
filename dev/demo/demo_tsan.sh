#!/bin/bash
# compiles the library with the thread sanitizer and runs demo.cc (run in /repo)
D=$(dirname "$(readlink -f "$0")")
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FL="-std=c++17 -g -O0 -w -fsanitize=thread -DINCLUDE_FILESYSTEM -include cstdint -I$D -I$R/src -I$R -I$R/extern/hgdb/include"
ls "$R"/src/*.cc "$D/demo.cc" | xargs -P 8 -I{} sh -c 'g++ '"$FL"' -c {} -o '"$T"'/$(basename {}).o' || exit 2
g++ -fsanitize=thread "$T"/*.o -lfmt -lpthread -ldl -o "$T/demo" || exit 2
cd "$T" && TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 120 ./demo
