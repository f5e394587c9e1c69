#!/bin/bash
# bugtest.sh [-c "IDS"] SEEDED_DIR...   development aid: in private copies of /repo and /verif
# (mount namespace), confirm a planted bug (applies, builds, stable tests pass, demo passes
# without and fails with it) and show which checks catch it.
checks=""; if [ "$1" = "-c" ]; then checks=$2; shift 2; fi
one() {
  d=$(realpath "$1"); id=$(basename "$d"); W=/tmp/bt.$id; mkdir -p $W
  cp -a /repo $W/repo; mkdir $W/verif; (cd /verif; tar cf - --exclude=./build --exclude=./.git --exclude=./seeded .) | tar xf - -C $W/verif
  cp "$d/patch.diff" $W/patch.diff; mkdir $W/demo; cp -a "$d"/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cs=${checks:-$prop}
  unshare -Urm bash -c '
    W=$1; d=$2; id=$3; cs=$4; prop=$5
    mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
    bash /opt/vp/build.sh >$W/b0 2>&1 || echo "$id: CLEAN BUILD FAILS"
    timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -3 $W/d0; }
    git apply $W/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit; }
    bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $W/b1; }
    bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
    python3 -c "
import json
s=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; p=json.load(open(\"$W/t.json\"))[\"passed\"]
m=[x for x in s if x not in p]
if m: print(\"$id: TESTS FAIL\", m)"
    timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1 && echo "$id: demo PASSES with the bug"
    for c in $cs; do
      s=$(date +%s); /verif/check.sh $c quick >$W/c.$c 2>&1; rc=$?
      if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " $W/c.$c; then echo "$id: caught by $c ($(( $(date +%s)-s )) s): $(grep -m1 failing: $W/c.$c | cut -c1-150)"
      else echo "$id: NOT caught by $c (rc=$rc)"; tail -2 $W/c.$c; fi
    done
  ' x $W "$d" $id "$cs" $prop
  chmod -R u+rwX $W; rm -rf "$W"
}
for b in "$@"; do one "$b"; done
