#!/bin/bash
# try.sh ID [PROP]: runs the property's quick check with the patch applied to /repo
ID=$1; S=/verif/seeded/$ID; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply $S/patch.diff || exit 1
cd /verif; VERIF_SEED=1 timeout 900 python3 run.py $P > /tmp/try-$ID.log 2>&1; r=$?
git -C /repo checkout -- .
echo "$ID $P rc=$r $(grep -m1 -E 'VIOLATION|OK|ERROR' /tmp/try-$ID.log | cut -c1-150)"
