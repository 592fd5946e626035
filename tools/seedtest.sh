#!/bin/bash
# seedtest.sh ID [nocheck] -- validates seeded/ID in a private copy of /repo (mount namespace) and runs its check against it
ID=$1; S=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/seedtest.XXXX); cp -a /repo $T/repo; mkdir $T/demo; cp $S/seeded/$ID/* $T/demo/; rm -f $T/demo/*.diff $T/demo/meta.json
export S ID T MODE=$2
unshare -Urm bash -c '
mount --bind $T/repo /repo; cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh > $T/b0 2>&1
timeout 300 bash $T/demo/demo.sh > $T/d0 2>&1; c=$?
git apply $S/seeded/$ID/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $T/b1 2>&1 || { echo "$ID: BUILD FAILS"; tail -20 $T/b1; exit 1; }
timeout 300 bash $T/demo/demo.sh > $T/d1 2>&1; p=$?
bash /opt/vp/test.sh $T/t.json > $T/t.log 2>&1
miss=$(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);t=json.load(open(\"$T/t.json\"))
print(len(b-set(t[\"passed\"])), sorted(b-set(t[\"passed\"]))[:3])")
echo "$ID: demo clean=$c patched=$p, stable tests missing: $miss"
[ $c = 0 ] || tail -5 $T/d0
if [ "$MODE" != nocheck ]; then
 P=$(python3 -c "import json;print(json.load(open(\"$S/seeded/$ID/meta.json\"))[\"property\"])")
 cp -a $S $T/verif; cd $T/verif; VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run_check.py $P quick > $T/c.log 2>&1; echo "$ID: check $P exit $?: $(grep -m1 -B2 VIOLATION $T/c.log | head -1 | cut -c1-200)"; tail -1 $T/c.log | cut -c1-200
fi'
rm -rf "$T"
