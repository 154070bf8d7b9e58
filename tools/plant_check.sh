#!/bin/bash
# tools/plant_check.sh ID...: for each planted bug, in a private mount of a copy of /repo: apply, build, stable tests, demo
# with and without the change, and its property's quick check.  /repo itself is never touched.
# NOTEST=1 leaves out the test suite, CHECKS="P01 P02" runs these checks instead of the property's own.
cd "$(dirname "$0")/.." || exit 1
V=$PWD
for id in "$@"; do
  W=$(mktemp -d /tmp/plantXXXXXX)
  cp -a /repo "$W/repo"; cp -a /opt/vp/cache "$W/cache"
  V=$V W=$W id=$id NOTEST=$NOTEST CHECKS=$CHECKS unshare -Urm bash -c '
    mount --bind $W/repo /repo; mount --bind $W/cache /opt/vp/cache
    p=${CHECKS:-$(python3 -c "import json;print(json.load(open(\"$V/seeded/$id/meta.json\"))[\"property\"])")}
    cp -a $V/seeded/$id $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
    cd /repo; bash $W/demo/demo.sh >$W/d0 2>&1; d0=$?
    git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; exit; }
    bash /opt/vp/build.sh >$W/build 2>&1 || { echo "$id: does not build"; tail -5 $W/build; exit; }
    bash $W/demo/demo.sh >$W/d1 2>&1; d1=$?
    if [ -z "$NOTEST" ]; then
      bash /opt/vp/test.sh $W/out.json >$W/test 2>&1
      miss=$(python3 -c "
import json
o=json.load(open(\"$W/out.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]
m=sorted(set(b)-set(o[\"passed\"])); print(len(m), m[:4])")
    fi
    echo "== $id demo $d0->$d1 stable tests missing: $miss"
    for q in $p; do
      out=$(cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 880 ./check $q --no-evidence 2>&1); rc=$?
      echo "   $q rc=$rc"; echo "$out" | grep -v "^$" | tail -${LINES_:-3} | cut -c1-300
    done'
  chmod -R u+w "$W"; rm -rf "$W"
done
