#!/bin/bash
# seedtest.sh <id> [check|nocheck] [prop...]: try a planted bug in a scratch
# copy of /repo that is mounted over /repo in a mount namespace of our own.
ID=$1; MODE=${2:-check}; shift; shift
D=${SEEDS:-/verif/seeded}/$ID; W=/tmp/seedwork_$ID
PROPS=${@:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
export ID MODE D W PROPS
mkdir -p $W; cp -a /repo $W/repo
cp -a $D $W/demo
unshare -m bash -c '
mount --bind $W/repo /repo; cd /repo
git checkout -q -- . 
timeout 300 bash $W/demo/demo.sh > $W/d0 2>&1; echo "$ID demo unchanged rc=$?"
git apply $D/patch.diff || { echo "$ID DOES NOT APPLY"; exit 1; }
if [ "$MODE" != "checkonly" ]; then
bash /opt/vp/build.sh > $W/bld.log 2>&1 || { echo "$ID BUILD FAILS"; tail -5 $W/bld.log; exit 1; }
bash /opt/vp/test.sh $W/res.json > $W/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$W/res.json"))
def passed(x):
    for k in ("passed","stable","stable_pass","tests","pass"):
        if k in x and isinstance(x[k],list): return set(x[k])
lost=passed(b)-passed(r); print("$ID tests lost:", len(lost), sorted(lost)[:3])
P
fi
timeout 300 bash $W/demo/demo.sh > $W/d1 2>&1; echo "$ID demo patched rc=$? $(tail -1 $W/d1 | cut -c1-200)"
if [ "$MODE" != "nocheck" ]; then for p in $PROPS; do
(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p quick > $W/c_$p 2>&1; echo "$ID check $p rc=$? $(tail -1 $W/c_$p | cut -c1-200)")
done; fi'
rm -rf /tmp/seedwork_$ID
