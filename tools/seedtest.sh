#!/bin/bash
# seedtest.sh ID [notest] [CHECK ...]: applies seeded/ID/patch.diff in a scratch copy of /repo (bind-mounted over /repo in a namespace
# of its own), builds, runs the stable tests and the demonstration, then the named checks (default: the property of meta.json).
ID=$1; shift; NOTEST=; [ "$1" = notest ] && { NOTEST=1; shift; }
D=/verif/seeded/$ID; W=/tmp/vp_seed_$ID.$$
rm -rf "$W"; cp -a /repo "$W"
CH="$*"; [ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'].lower())")
DEMO=/tmp/vp_demo_$ID.$$; rm -rf "$DEMO"; cp -r "$D" "$DEMO"; rm -f "$DEMO"/*.diff "$DEMO"/meta.json
unshare -Ur -m bash -c "
mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh >$W.log 2>&1
timeout 300 bash $DEMO/demo.sh >$W.demo0 2>&1; echo '$ID demo unchanged: rc' \$?
git apply $D/patch.diff || { echo '$ID PATCH FAILS'; exit 1; }
bash /opt/vp/build.sh >$W.log 2>&1 || { echo '$ID BUILD FAILS'; exit 1; }
timeout 300 bash $DEMO/demo.sh >$W.demo1 2>&1; echo '$ID demo patched: rc' \$?
for k in $CH; do (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/\$k.py > $W.\$k.log 2>&1; echo '$ID check' \$k rc \$? ; grep -a VIOLATION $W.\$k.log | head -2 | cut -c1-300); done
if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh $W.json >$W.testlog 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$W.json'))
s=set(b['stable'])
miss=s-set(r['passed'])
print('$ID stable tests failing:',len(miss),sorted(miss)[:5])
P
fi
"
rm -rf "$W" "$DEMO"
