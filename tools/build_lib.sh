#!/bin/bash
# Builds libdynd (shared libraries only) from /repo's current working tree into
# /verif/build/lib.  Objects come from a content-hash cache (ccache), never from
# timestamps, so the result always reflects the current sources.
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
V=/verif; B=$V/build/lib
mkdir -p "$B"
export CCACHE_DIR=$V/build/ccache CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1
export GIT_CEILING_DIRECTORIES=/
if [ ! -f "$B/build.ninja" ] || ! cmake -S /repo -B "$B" >/dev/null 2>&1; then
  rm -rf "$B"; mkdir -p "$B"
  cmake -S /repo -B "$B" -G Ninja \
    -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
    -DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache \
    -DCMAKE_BUILD_TYPE= -DDYND_BUILD_TESTS=OFF \
    -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
    "-DCMAKE_CXX_FLAGS=-O1 -Wno-error" -DCMAKE_C_FLAGS=-Wno-error > "$B.cmake.log" 2>&1 || { cat "$B.cmake.log" >&2; exit 3; }
fi
# timestamps may lie (copies, checkouts): force ninja to consider everything dirty;
# ccache answers by content.
find "$B" -name '*.o' -delete
ninja -C "$B" -j"$(nproc)" "$@" > "$B.ninja.log" 2>&1 || { tail -50 "$B.ninja.log" >&2; exit 3; }
