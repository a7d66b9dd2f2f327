#!/bin/bash
# tools/seedtest.sh ID [--nocheck]   confirm a planted bug in a private copy of /repo (bind-mounted over /repo in a
# user+mount namespace, so nothing outside the copy is written), then run the property's check on it.
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo $W/repo; cp -a $D $W/demo; 
cat > $W/run.sh <<X
mount --bind $W/repo /repo; cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo "$ID: BASE BUILD FAILS"; exit; }
(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1); r0=\$?
git apply $D/patch.diff || { echo "$ID: PATCH FAILS"; exit; }
bash /opt/vp/test.sh $W/o.json > $W/t.log 2>&1
t=\$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/o.json'))
bl=b['passed'] if 'passed' in b else b.get('stable',b)
print(len(set(bl)-set(o['passed'])))")
(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1); r1=\$?
c=-
if [ "$2" != --nocheck ]; then (cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_OUT=$W/out ./check $P quick > $W/c.log 2>&1); c=\$?; fi
echo "$ID prop=$P demo_clean=\$r0 demo_bug=\$r1 missing_tests=\$t check=\$c \$(grep -m1 VIOLATION $W/c.log | grep -o no-failing-input-found)"
grep -h -E "^FAIL| not discharged|^  [0-9]+ obl" $W/c.log 2>/dev/null | head -4
grep -h -A2 "^FAIL" $W/out/*/failing-input.txt 2>/dev/null | head -5
[ \$r0 = 0 ] || tail -5 $W/d0.log
X

unshare -Urm bash $W/run.sh
find "$W" -delete
