#!/bin/bash
# plant.sh ID...: confirms planted bugs in /tmp/plant/repo (a clone of /repo): builds, stable tests pass, demo passes without and fails with.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
export CCACHE_DIR=/tmp/plant/ccache CCACHE_NOHASHDIR=1 GIT_CEILING_DIRECTORIES=/
R=/tmp/plant/repo
cd $R || exit 2
git checkout -q -- . ; git fetch -q origin; git reset -q --hard origin/HEAD 2>/dev/null || git reset -q --hard FETCH_HEAD
cur=""
bld() { ninja -C _build > /tmp/plant/ninja.log 2>&1; }
for id in "$@"; do
  S=/verif/seeded/$id
  git checkout -q -- .
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! bld; then echo "$id: does not build"; grep -m5 error: /tmp/plant/ninja.log; continue; fi
  rm -f /tmp/plant/t.xml; (cd _build/tests && timeout -k 5 120 ./test_libdynd --gtest_output=xml:/tmp/plant/t.xml > /tmp/plant/t.log 2>&1)
  if [ -s /tmp/plant/t.xml ]; then
    python3 /opt/vp/results.py /tmp/plant/t.json junit:/tmp/plant/t.xml
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant/t.json'))
base=b.get('passed') or b.get('stable') or b
miss=[x for x in base if x not in set(t['passed'])]
print(sys.argv[1], 'tests', 'OK' if not miss else 'FAIL %s'%miss[:6])
P
  else echo "$id: test run crashed"; fi
  (timeout 300 bash $S/demo.sh > /tmp/plant/demo_bad.log 2>&1); bad=$?
  git checkout -q -- .
  bld || echo "clean build failed"
  (timeout 300 bash $S/demo.sh > /tmp/plant/demo_ok.log 2>&1); ok=$?
  echo "$id: demo with patch=$bad (want nonzero), without=$ok (want 0): $(tail -1 /tmp/plant/demo_bad.log | head -c 150)"
done
