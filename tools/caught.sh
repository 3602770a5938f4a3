#!/bin/bash
# runs the owning check against each planted bug (scratch copy); prints caught / missed
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo $t/r; git -C $t/r apply /verif/seeded/$id/patch.diff || echo APPLYFAIL
  PVC_REPO=$t/r PVC_OUT=$t timeout 900 python3-vt check.py $p > $t/log 2>&1; rc=$?
  echo "$id $p rc=$rc $(tail -1 $t/log | cut -c1-200 | sed "s#$t##")"
  rm -rf $t
done
