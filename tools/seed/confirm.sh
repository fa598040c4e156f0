#!/bin/bash
# confirm.sh ID: in a scratch copy of /repo, demo passes without the patch and fails with it, and the stable tests pass with it
ID=$1; S=/verif/seeded/$ID; W=/tmp/sw
[ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/sw-test.sh; sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/sw-build.sh
bash $S/demo.sh > /tmp/demo-$ID.0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash $S/demo.sh > /tmp/demo-$ID.1 2>&1; r1=$?
bash /tmp/sw-build.sh > /tmp/sw-build.log 2>&1; rb=$?
bash /tmp/sw-test.sh /tmp/sw-test.json > /tmp/sw-test.log 2>&1
python3 - "$ID" $r0 $r1 $rb <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/sw-test.json'))
miss=sorted(b-set(t['passed']))
print(sys.argv[1],"demo clean",sys.argv[2],"demo patched",sys.argv[3],"build",sys.argv[4],"missing tests",miss, "CONFIRMED" if sys.argv[2]=='0' and sys.argv[3]!='0' and sys.argv[4]=='0' and not miss else "NOT CONFIRMED")
P
git checkout -q -f
