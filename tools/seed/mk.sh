#!/bin/bash
# mk.sh ID PROPERTY NEEDS BREAKS < main.rs : makes the folder from the diff of /tmp/sw
ID=$1; S=/verif/seeded/$ID; mkdir -p $S
git -C /tmp/sw diff > $S/patch.diff; git -C /tmp/sw checkout -q -f
cat > $S/main.rs; cp /verif/tools/seed/demo.sh $S/demo.sh; cp /verif/harness/Cargo.lock $S/demo.lock
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
wc -l $S/patch.diff
