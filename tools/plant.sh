#!/bin/bash
# plant.sh ID [notest]: verify a planted bug in a private copy of /repo (mounted over /repo in a namespace of its own):
# applies, builds, passes the stable tests, demo 0 without and nonzero with it; then what the property's check says.
ID=$1; NOTEST=$2
W=${PLANT_DIR:-/tmp/plant}
mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
[ -n "$IN_NS" ] || (cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
[ -n "$IN_NS" ] || exec env IN_NS=1 unshare -m bash "$0" "$@"
mount --bind $W/repo /repo
cd /repo
D=${VERIF_DIR:-/verif}/seeded/$ID
git checkout -q -- .
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W/demo; find $W/demo -mindepth 1 -delete; cp -a $D/. $W/demo/
rm -f $W/demo/patch.diff $W/demo/meta.json
if [ "$NOTEST" != only ]; then
bash $W/demo/demo.sh > $W/demo0.log 2>&1; r0=$?
git apply $D/patch.diff || { echo "$ID APPLY FAILED"; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; r1=$?
else git apply $D/patch.diff || exit 1; fi
t=skipped
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh > $W/build.log 2>&1 || echo "$ID BUILD FAILED"
  bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/out.json'))
ok=set(o.get('passed',o.get('pass',[])))
bad=[x for x in b if x not in ok]
print('tests-ok' if not bad else 'TESTS FAIL %d %s'%(len(bad),bad[:3]))
P
)
fi
c=$(python3 ${VERIF_DIR:-/verif}/check.py $P 2>$W/check.err | tail -3); rc=$?
git checkout -q -- .
echo "$ID $P demo clean=$r0 patched=$r1 $t"
echo "$c" | cut -c1-600
