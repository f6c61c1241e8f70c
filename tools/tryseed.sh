#!/bin/bash
# tryseed.sh ID...: does the property's quick check report the planted bug?  (works on a scratch copy)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $t/r; git -C $t/r apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf $t; continue; }
  s=$(date +%s); VERIF_REPO=$t/r VERIF_SEED=${SEED:-1} timeout 900 python3 /verif/vr.py check $p quick > $t/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c "seed" $t/out)"; grep -v "^$p quick" $t/out | head -${N:-2} | cut -c1-300; rm -rf $t
done
