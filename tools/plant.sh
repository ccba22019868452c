#!/bin/bash
# plant.sh <seeded/ID> [check-ids...]: confirm a planted bug in a scratch copy bind-mounted over /repo (private mount namespace).
# prints: demo0 (unchanged), build, stable tests, demo1 (patched), and the verdict of the checks.
B=$(realpath "$1"); shift
ID=$(basename "$B"); PROP=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
CH=${*:-$PROP}
S=/tmp/plant_$ID; rm -rf "$S"; cp -a /repo "$S"
(cd /repo && bash "$B/demo.sh" >/tmp/plant_$ID.d0 2>&1); d0=$?
unshare -m bash -c "
mount --bind $S /repo || exit 3
cd /repo; git checkout -q -- . ; git apply $B/patch.diff || { echo $ID apply failed; exit 3; }
if [ -z \"$NOTEST\" ]; then
bash /opt/vp/test.sh /tmp/plant_$ID.json >/tmp/plant_$ID.log 2>&1
python3 - <<P
import json
o=json.load(open('/tmp/plant_$ID.json'));s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=s-set(o['passed']);print('$ID stable tests lost:',len(m),sorted(m)[:6])
P
fi
bash $B/demo.sh >/tmp/plant_$ID.d1 2>&1; echo $ID demo unchanged=$d0 patched=\$?
for c in $CH; do VERIF_BUILD_DIR=/tmp/plant_$ID.b python3 /verif/check.py \$c >/tmp/plant_$ID.\$c 2>&1; echo $ID check \$c rc=\$? \$(grep -h VIOLATION /tmp/plant_$ID.\$c); done
"
rm -rf "$S" /tmp/plant_$ID.b
