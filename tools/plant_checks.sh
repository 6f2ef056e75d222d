#!/bin/bash
# runchecks.sh id... : runs the check of the seed's property (or CHECKS env) against a scratch copy with the patch
for id in "$@"; do
  rm -rf /tmp/sc2/$id; mkdir -p /tmp/sc2; cp -a /repo /tmp/sc2/$id
  (cd /tmp/sc2/$id && git apply /verif/seeded/$id/patch.diff) || { echo "$id APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    VERIF_REPO=/tmp/sc2/$id timeout 900 python3 /verif/tools/check.py $c > /tmp/sc2/$id.$c.log 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sc2/$id.$c.log)"
  done
  rm -rf /tmp/sc2/$id
done
