#!/bin/bash
# refac.sh MODE [ids...]: rewrite a scratch copy of /repo's sources and run the checks on it
M=$1; shift
S=/tmp/refac_$M
B=/tmp/refac_bin
if [ ! -x $B ] || [ /verif/dev/refac.cc -nt $B ]; then
  L=$(llvm-config-18 --prefix 2>/dev/null || echo /usr/lib/llvm-18)
  clang++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags 2>/dev/null || echo -I$L/include) /verif/dev/refac.cc -o $B $(ls $L/lib/libclang-cpp.so* | head -1) $(ls $L/lib/libLLVM*.so* | head -1) || exit 2
fi
if [ ! -d $S ]; then
mkdir -p $S && cp -a /repo/src $S/ && ln -s /repo/extern $S/extern
A="-std=c++17 -DINCLUDE_FILESYSTEM -include cstdint -I/verif/stubs -I$S/src -I/repo/extern/hgdb/include -I/repo/extern/fmt/include -w -resource-dir /usr/lib/llvm-18/lib/clang/18"
ls $S/src/*.cc | xargs -P8 -I{} sh -c "$B --mode=$M {} -- $A >> $S/log 2>&1"
grep edits $S/log | awk '{n+=$1} END {print n, "edits"}'; grep -c error: $S/log
# still compiles?
ls $S/src/*.cc | xargs -P8 -I{} sh -c "clang++ -fsyntax-only {} $A 2>&1 | grep -m3 error: "
fi
cd /verif
for i in ${@:-$(ls ka/rules/C*.py | xargs -n1 basename | sed 's/.py//')}; do
 ( KA_REPO=$S bash check.sh $i quick > $S/out.$i 2>&1; echo "$M $i rc=$? $(grep -c '^VIOLATION' $S/out.$i)" ) &
done; wait
