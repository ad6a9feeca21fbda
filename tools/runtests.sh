#!/bin/bash
# runtests.sh COPY: build a scratch copy of the repository the way /opt/vp/build.sh does and run its tests
w=$1
mkdir -p "$w/_vt"; sed "s#set(R /repo)#set(R $w)#" /opt/vp/cmake/CMakeLists.txt > "$w/_vt/CMakeLists.txt"
cmake -S "$w/_vt" -B "$w/_build" -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2" >/dev/null 2>&1
ninja -C "$w/_build" -j4 caligo_test caligo_headers >"$w/_build/log" 2>&1 || { echo BUILD-FAILED; tail -3 "$w/_build/log"; exit 1; }
ctest --test-dir "$w/_build" -j4 --timeout 150 2>&1 | grep -E "tests passed|Failed|Timeout" | tail -5
