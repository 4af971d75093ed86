#!/bin/bash
# catch.sh ID [CHECKS...]: applies a planted bug to /repo, runs quick checks, undoes it.
id=$1; shift
S=/verif/seeded/$id
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $P; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/checks/run.py $p quick > /tmp/plant/catch.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/plant/catch.log)"; [ $rc = 2 ] && tail -3 /tmp/plant/catch.log
done
