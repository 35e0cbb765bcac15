#!/bin/bash
# full gtest run (all 134 tests, incl. those the offline build cannot link) of /repo in a scratch copy; removed afterwards with "clean"
if [ "$1" = clean ]; then rm -rf /tmp/kfull; exit; fi
mkdir -p /tmp/kfull
rsync -a --delete --exclude _build --exclude .git --exclude B /repo/ /tmp/kfull/ 2>/dev/null || { cp -a /repo/. /tmp/kfull/; }
mkdir -p /tmp/kfull/extern/cxxpool/src; cp /verif/stubs/cxxpool.h /tmp/kfull/extern/cxxpool/src/
cd /tmp/kfull
[ -f B/build.ninja ] || cmake -S . -B B -G Ninja -DCMAKE_BUILD_TYPE=Debug -DINCLUDE_FILESYSTEM=1 -DCMAKE_PROJECT_kratos_INCLUDE=/opt/vp/kratos/hook.cmake >/tmp/kfull/c.log 2>&1
cmake --build B -j8 >/tmp/kfull/b.log 2>&1 || { tail -30 /tmp/kfull/b.log; exit 1; }
ctest --test-dir B -j8 --timeout 60 2>&1 | sed -n '/tests passed/,$p'
