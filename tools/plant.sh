#!/bin/bash
# tools/plant.sh ID [notests]: verifies /verif/seeded/ID in a scratch copy of /repo, and shows what the property's check says.
ID=$1
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$ID
C=/tmp/plant.$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "/tmp/plant.$ID" "/tmp/plantd.$ID"
cp -a ${DST_REPO:-/repo} "$C"; mkdir /tmp/plantd.$ID; cp -a $S/. /tmp/plantd.$ID/; rm -f /tmp/plantd.$ID/*.diff /tmp/plantd.$ID/meta.json
git -C $C checkout -q -- . 
export PYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH LANG=C.UTF-8
run_demo() { ( cd $C && PYTHONPATH=$C/core:$C timeout 300 bash /tmp/plantd.$ID/demo.sh >/tmp/plantd.$ID/out.$1 2>&1; echo "$ID demo $1: $?" ); }
run_demo clean
git -C $C apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
run_demo patched
tail -3 /tmp/plantd.$ID/out.patched | cut -c1-300
if [ "$2" != notests ]; then
  sed "s#/repo\b#$C#g" /opt/vp/test.sh > /tmp/plantd.$ID/test.sh
  PYTHONPATH=$C/core:$C bash /tmp/plantd.$ID/test.sh /tmp/plantd.$ID/t.json >/tmp/plantd.$ID/test.log 2>&1
  python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plantd.$ID/t.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return {n for n,s in x.get('tests',x).items() if s in ('passed','pass',True)}
m=passed(b)-passed(t); print('$ID tests: broken', len(m), sorted(m)[:5])
PY
fi
cd $V; DST_REPO=$C timeout 900 python3 check.py $P --no-minimise > /tmp/plantd.$ID/check.out 2>&1; echo "$ID check $P: $?"; grep -m3 -E "VIOLATION|::|kind" /tmp/plantd.$ID/check.out | cut -c1-300
rm -rf "/tmp/plant.$ID"
