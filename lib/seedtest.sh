#!/bin/bash
# development aid: seedtest.sh ID [PROPERTY...]: confirm a planted bug in a scratch copy (builds, stable tests pass,
# demo 0 before and nonzero after) and run the named checks (default: its own property) against it.
set -u
clean() { python3 -c "import shutil; [shutil.rmtree('/tmp/%s-$ID' % x, True) for x in ('seed', 'sd')]"; }
ID=$1; shift
D=/verif/seeded/$ID
S=/tmp/seed-$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
clean
cp -a /repo $S
cp -r $D /tmp/sd-$ID; inrepo() { unshare -Urm bash -c "mount --bind $S /repo && cd /repo && $1"; }
inrepo "timeout 300 bash /tmp/sd-$ID/demo.sh" > /tmp/sd-$ID.base 2>&1; echo "$ID demo unchanged: $? (want 0)"
git -C $S apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
inrepo "bash /opt/vp/test.sh /tmp/sd-$ID.json" > /tmp/sd-$ID.build 2>&1 || echo "BUILD/TEST FAILED, see /tmp/sd-$ID.build"
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/sd-$ID.json'))
print('$ID tests broken:', [t for t in b if t not in r['passed']])
P
inrepo "timeout 300 bash /tmp/sd-$ID/demo.sh" > /tmp/sd-$ID.demo 2>&1; echo "$ID demo patched: $? (want nonzero)"
for p in $PROPS; do VERIF_REPO=$S timeout 900 python3 /verif/check.py $p > /tmp/sd-$ID.$p 2>&1; echo "$ID $p rc=$? $(tail -1 /tmp/sd-$ID.$p)"; done
clean
