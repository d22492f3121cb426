#!/bin/bash
# tryplant.sh NAME [notest] [extra check args]: confirm a planted change in a scratch copy mounted over /repo (own mount namespace)
name=$1; shift
nt=; [ "$1" = notest ] && { nt=1; shift; }
S=/verif/seeded/$name
export S name nt
W=/tmp/try_$name; export W
mkdir -p $W
cp -a /repo $W/repo; mkdir -p $W/rep $W/demo $W/ev; cp $S/demo.* $W/demo/
unshare -m bash -s -- "$@" <<'X'
mount --bind $W/repo /repo; mount --bind $W/rep /opt/testreports; mkdir -p /verif/evidence; mount --bind $W/ev /verif/evidence
cd /repo
( timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1 ); d0=$?
git apply $S/patch.diff || { echo "$name: PATCH FAILS"; exit; }
bash /opt/vp/build.sh >$W/build.log 2>&1; b=$?
if [ -z "$nt" ]; then
bash /opt/vp/test.sh $W/o.json >$W/o.log 2>&1
t=$(python3 - <<'PY'
import json,os
o=json.load(open(os.environ['W']+'/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(o['passed'])))
PY
)
else t=skipped; fi
( timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1 ); d1=$?
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
s=$(date +%s)
( cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $p "$@" >$W/check.log 2>&1 ); c=$?
e=$(date +%s)
echo "$name [$p]: build=$b tests-missing=$t demo: $d0 -> $d1  check: $c ($((e-s))s) $(grep -c ^VIOLATION $W/check.log) violations"
[ $d0 = 0 ] || tail -5 $W/demo0.log
[ $d1 = 0 ] && tail -5 $W/demo1.log
[ $c = 1 ] && grep -m2 -A3 ^VIOLATION $W/check.log || tail -5 $W/check.log
X
rm -rf $W
