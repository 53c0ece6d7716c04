#!/bin/bash
# seedcheck.sh ID : validates seeded bug ID in place (applies, builds, tests, runs the demo, undoes)
id=$1; S=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
rm -rf /tmp/seedt/$id; cp -a $S /tmp/seedt/$id; rm -f /tmp/seedt/$id/patch.diff /tmp/seedt/$id/meta.json
bash /opt/vp/build.sh >/tmp/seedt/b0 2>&1
bash /tmp/seedt/$id/demo.sh >/tmp/seedt/$id.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/test.sh /tmp/seedt/o.json >/tmp/seedt/$id.test 2>&1
n=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seedt/o.json'))['passed']
print(len(set(b)-set(o)))")
bash /tmp/seedt/$id/demo.sh >/tmp/seedt/$id.bug 2>&1; c=$?
git checkout -q -- .
echo "$id: clean=$a (want 0) bug=$c (want nonzero) stable tests lost=$n (want 0)"
