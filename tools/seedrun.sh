#!/bin/bash
# seedrun.sh ID... : runs the check of each seeded bug's property against a patched copy of /repo
for id in "$@"; do
S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedw/$id; /bin/rm -rf $W; mkdir -p /tmp/seedw; git clone -q /repo $W && git -C $W apply $S/patch.diff 2>/dev/null
s=$(date +%s); VP_REPO=$W python3 /verif/check.py $p > /tmp/seedw/$id.log 2>&1; r=$?
echo "$id: exit $r in $(( $(date +%s)-s )) s: $(grep -m1 VIOLATION /tmp/seedw/$id.log)"
/bin/rm -rf $W; done
