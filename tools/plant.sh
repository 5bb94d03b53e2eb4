#!/bin/bash
# plant.sh ID [notest]: confirms the planted bug seeded/ID in scratch copies and runs
# its property's check on it.  Needs /tmp/w, a built copy of /repo's HEAD (record_head.sh).
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; W=/tmp/w; P=/tmp/plant-$1
[ -f $W/gst.im ] || bash $V/tools/record_head.sh
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf $P; cp -a $W $P
git -C $P checkout -q -- . ; git -C $P apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
D=/tmp/demo-$1; rm -rf $D; mkdir $D; cp $S/* $D; rm -f $D/*.diff $D/meta.json
inrepo() { unshare -m bash -c "mount --make-rprivate / 2>/dev/null; mount --bind $1 /repo; cd /repo; $2"; }
inrepo $W "timeout 300 bash $D/demo.sh" > /tmp/plant-$1.ok 2>&1; a=$?
inrepo $P "bash /opt/vp/build.sh" > /tmp/plant-$1.build 2>&1 || { echo "$1: build fails"; tail -5 /tmp/plant-$1.build; exit 1; }
inrepo $P "timeout 300 bash $D/demo.sh" > /tmp/plant-$1.bad 2>&1; b=$?
echo "$1: demo clean=$a patched=$b"; [ $b = 0 -o $a != 0 ] && tail -n 5 /tmp/plant-$1.ok /tmp/plant-$1.bad
if [ "$2" != notest ]; then
inrepo $P "bash /opt/vp/test.sh /tmp/plant-$1.json" > /tmp/plant-$1.tests 2>&1
echo "$1: tests: $(python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/plant-$1.json'))['passed'])
print('missing', len(b-o), sorted(b-o)[:8])
PY
)"
fi
VERIF_REPO=$P VERIF_TIER=quick python3 $V/props/$(echo $pid | tr A-Z a-z).py > /tmp/plant-$1.check 2>&1
echo "$1: check $pid exit $? : $(grep -m1 VIOLATION /tmp/plant-$1.check)"
rm -rf $P $D
