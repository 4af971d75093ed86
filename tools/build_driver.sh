#!/bin/bash
# Builds libdynd from /repo and then the conformance driver against it.
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
V=/verif; B=$V/build/lib; O=$V/build/obj
export CCACHE_DIR=$V/build/ccache CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1
mkdir -p $O
$V/tools/build_lib.sh libdynd libdyndt dynd_abi &
lib=$!
# generated headers come from configuring; wait for them
for i in $(seq 1 300); do [ -f $B/include/dynd/cmake_config.hpp ] && [ -f $B/build.ninja ] && break; sleep 0.1; done
INC="-I$V/harness -I/repo/include -I$B/include -I/repo/thirdparty/datetime/include"
ls -d /repo/thirdparty/*/include >/dev/null 2>&1 && for d in /repo/thirdparty/*/include; do INC="$INC -I$d"; done
rm -f $O/*.o $O/fail
ls $V/harness/*.cpp | xargs -P 4 -I{} sh -c 'ccache g++ -std=c++14 -O0 -w '"$INC"' -c {} -o '$O'/$(basename {} .cpp).o || touch '$O'/fail' 2> $O.log
wait $lib
[ -f $O/fail ] && { head -60 $O.log >&2; exit 3; }
g++ -o $V/build/driver.tmp $O/*.o -rdynamic -L$B -ldynd -ldyndt -ldynd_abi -Wl,-rpath,$B -lpthread 2> $O.link.log || { tail -20 $O.link.log >&2; exit 3; }
mv $V/build/driver.tmp $V/build/driver
