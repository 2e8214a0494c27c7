#!/bin/bash
# seedtest.sh ID [nocheck|checkonly] : validate planted bug /verif/seeded/ID in a private mount namespace
# (a copy of /repo is bind-mounted over /repo; nothing outside the scratch directory changes).
ID=$1; MODE=$2; S=/verif/seeded/$ID
W=/tmp/bt/$ID; mkdir -p /tmp/bt; rm -rf /tmp/bt/$ID; cp -a /repo $W
unshare -m bash -c "
mount --bind $W /repo; cd /repo
P=\$(python3 -c \"import json;print(json.load(open('$S/meta.json'))['property'])\")
if [ '$MODE' != checkonly ]; then
 bash /opt/vp/build.sh >/dev/null 2>&1; (bash $S/demo.sh >$W.demo0 2>&1; echo \"$ID demo on clean: \$?\")
fi
git apply $S/patch.diff || { echo '$ID PATCH DOES NOT APPLY'; exit 1; }
if [ '$MODE' != checkonly ]; then
 bash /opt/vp/test.sh $W.json >$W.build 2>&1; echo \"$ID build/test: \$?\"
 python3 - <<Y
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$W.json'))
m=b-set(r['passed']); print('$ID stable tests missing:', len(m), sorted(m)[:3])
Y
 (bash $S/demo.sh >$W.demo1 2>&1; echo \"$ID demo with bug: \$?\")
fi
if [ '$MODE' != nocheck ]; then cd /verif; timeout 900 python3 check.py \$P > $W.check 2>&1; echo \"$ID check \$P: \$? \$(grep -c '^VIOLATION' $W.check) violations, \$(tail -1 $W.check)\"; fi
"
rm -rf /tmp/bt/$ID
