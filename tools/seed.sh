#!/bin/bash
# seed.sh ID : confirms /verif/seeded/ID in a scratch copy (applies, builds, tests pass, demo passes/fails), then runs its property's check.
set -u
V=/verif; S=/tmp/seed/repo; id=$1; d=$V/seeded/$id
[ -d $S ] || { mkdir -p /tmp/seed; cp -a /repo $S; }
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S checkout -q FETCH_HEAD
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "${2:-}" != check ]; then
( cd $S && timeout 300 bash $d/demo.sh > /tmp/seed/demo0.log 2>&1 ); r0=$?
fi
git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
if [ "${2:-}" != check ]; then
( cd $S && timeout 300 bash $d/demo.sh > /tmp/seed/demo1.log 2>&1 ); r1=$?
sed 's#cd /repo#cd /tmp/seed/repo#' /opt/vp/test.sh > /tmp/seed/test.sh
bash /tmp/seed/test.sh /tmp/seed/out.json > /tmp/seed/test.log 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/out.json'))
p=set(o.get('passed') or o.get('pass') or [])
m=set(b['stable'])-p
print("ok" if not m else "MISSING "+str(sorted(m)[:5]))
P
)
fi
cd $V; OBJ_REPO=$S OBJ_BUILD=/tmp/seed/build timeout 900 python3 check.py $pid > /tmp/seed/check.log 2>&1; c=$?
git -C $S checkout -q -- .
echo "$id [$pid] demo0=${r0:-} demo1=${r1:-} tests=${t:-} check=$c $(grep -m1 -A0 VIOLATION /tmp/seed/check.log | cut -c1-150)"
