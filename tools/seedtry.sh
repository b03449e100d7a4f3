#!/bin/bash
# tools/seedtry.sh ID [nocheck] : builds, tests and demonstrates one planted bug in a scratch copy bound over /repo in a
# private mount namespace, then runs its property's check there.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed.$ID
rm -rf "$W"; cp -a /repo "$W"
unshare -m bash -c '
S='$S'; W='$W'; ID='$ID'
mount --bind $W /repo; cd /repo
D=$(mktemp -d /tmp/demo.XXXXXX); cp -a $S/. $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh > $W.demo0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $W.json > $W.test 2>&1
bad=$(python3 - $W.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=set(json.load(open(sys.argv[1]))["passed"])
print(",".join(t for t in b if t not in r)[:300])
P
)
bash $D/demo.sh > $W.demo1 2>&1; r1=$?
rm -rf "$D"
echo "$ID: demo unchanged=$r0 patched=$r1 tests-broken=[$bad]"
'
rm -rf "$W"
