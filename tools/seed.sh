#!/bin/bash
# seed.sh [-T] [-c PROP]... DIR: judges the planted change DIR (patch.diff, demo.sh) in a
# scratch copy of /repo mounted over /repo in a private mount namespace.
#   -T skip the repository's tests     -c PROP also run that check (default: meta.json's)
# slot directory: /tmp/w/$SLOT (default s0)
SLOT=${SLOT:-s0}
tests=1; props=()
while getopts "Tc:" o; do case $o in T) tests=0;; c) props+=("$OPTARG");; esac; done
shift $((OPTIND-1))
dir=$(readlink -f "$1")
S=/tmp/w/$SLOT
mkdir -p $S
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; fi
[ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])"))
cd $S/repo && git fetch -q ${BASE:-/repo} HEAD && git reset -q --hard FETCH_HEAD || exit 9
mkdir -p $S/verif $S/work $S/demo
rsync -a --delete --exclude .git --exclude seeded --exclude replays --exclude evidence --exclude .build /verif/ $S/verif/
rsync -a --delete --exclude '*.diff' --exclude meta.json $dir/ $S/demo/
cp $dir/patch.diff $S/patch.diff
export S tests
exec unshare -Urm bash -c '
mount --bind $S/repo /repo; mount --bind $S/verif /verif; mkdir -p /opt/vp/work 2>/dev/null; mount --bind $S/work /opt/vp/work 2>/dev/null
cd /repo
if [ -z "$NOBASE" ]; then
  bash /opt/vp/build.sh >$S/build0.log 2>&1 || { echo "BASE BUILD FAILED"; exit 1; }
  timeout 300 bash $S/demo/demo.sh > $S/demo0.log 2>&1; echo "demo on base: $?"
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 $S/build.log; exit 1; }
timeout 300 bash $S/demo/demo.sh > $S/demo1.log 2>&1; echo "demo on mutant: $?"
if [ $tests = 1 ]; then
  bash /opt/vp/test.sh $S/t.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$S/t.json"))
b=b.get("stable") or b.get("passed") or b.get("tests") or b
print("tests: %d baseline not passing" % len(set(b)-set(t["passed"])), sorted(set(b)-set(t["passed"]))[:5])
P
fi
cd /verif
for p in '"${props[*]}"'; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > $S/check-$p.log 2>&1; echo "check $p: $? $(grep -h -m1 -E "VIOLATION|CHECK-ERROR" $S/check-$p.log)"; grep -h -m1 "violating" $S/check-$p.log | cut -c1-300
done
cd /repo; git checkout -q -- .
'
