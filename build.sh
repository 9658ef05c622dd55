#!/bin/bash
# build.sh TARGET... : (re)build drivers from /repo's working tree into /verif/build.
cd "$(dirname "$0")"
export CCACHE_DIR=$PWD/build/ccache CCACHE_MAXSIZE=2G CCACHE_NOHASHDIR=1
export CCACHE_SLOPPINESS=include_file_mtime,include_file_ctime,time_macros,pch_defines
mkdir -p build
if [ ! -f build/build.ninja ]; then
    launcher=
    command -v ccache >/dev/null && launcher="-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"
    cmake -S harness -B build -G Ninja -DCMAKE_CXX_COMPILER=g++-14 -DCMAKE_BUILD_TYPE=None "-DCMAKE_CXX_FLAGS=-O1 -D_GLIBCXX_ASSERTIONS" $launcher >build/cmake.log 2>&1 || { cat build/cmake.log; exit 2; }
fi
exec ninja -C build "$@" >build/ninja.log 2>&1
