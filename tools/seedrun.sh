#!/bin/bash
# tools/seedrun.sh ID... : runs the check of each planted bug's property against a scratch copy with the bug
for ID in "$@"; do
  W=/tmp/seedr.$ID; rm -rf $W; git clone -q /repo $W; [ -d /repo/_build/src ] && mkdir -p $W/_build && cp -a /repo/_build/src $W/_build/
  git -C $W apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  s=$(date +%s); VP_REPO=$W python3 /verif/check.py $P > /tmp/seedr.$ID.log 2>&1; rc=$?
  echo "$ID $P rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -o 'VIOLATION.*' /tmp/seedr.$ID.log)"
  rm -rf $W
done
