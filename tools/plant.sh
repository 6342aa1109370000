#!/bin/bash
# tools/plant.sh ID [check|nocheck]: verifies the planted bug seeded/ID in a private copy of /repo
# (bind-mounted over /repo in a mount namespace of its own): demo passes without, builds, 378 tests pass,
# demo fails with the patch, then runs the property's check(s). Prints one summary line.
id=$1; mode=${2:-check}
S=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/reports"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -m bash -c '
W=$1; S=$2; id=$3; prop=$4; mode=$5
mount --bind $W/repo /repo; mkdir -p /opt/vp/reports; mount --bind $W/reports /opt/vp/reports
cd /repo; git checkout -q -- . 
mkdir $W/demo; cp -r $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
( cd /repo; timeout 300 bash $W/demo/demo.sh ) >$W/demo0.log 2>&1; d0=$?
git apply $S/patch.diff; ap=$?
bash /opt/vp/build.sh >$W/build.log 2>&1; b=$?
bash /opt/vp/test.sh $W/o.json >$W/test.log 2>&1
t=$(python3 - <<P
import json
o=json.load(open("$W/o.json"));b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
print(len([x for x in b if x not in set(o["passed"])]))
P
)
( cd /repo; timeout 300 bash $W/demo/demo.sh ) >$W/demo1.log 2>&1; d1=$?
c=-; 
if [ $mode = check ]; then
( cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $prop ) >$W/check.log 2>&1; c=$?
fi
ok=BAD; [ $d0 = 0 ] && [ $ap = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $d1 != 0 ] && ok=good
echo "$id $prop $ok: demo0=$d0 apply=$ap build=$b tests_missing=$t demo1=$d1 check=$c $(grep -m1 VIOLATION $W/check.log 2>/dev/null | cut -c1-200)"
[ $ok = BAD ] && { tail -3 $W/demo0.log; tail -5 $W/demo1.log; tail -3 $W/build.log; }
' _ "$W" "$S" "$id" "$prop" "$mode"
rm -rf "$W"
