#!/bin/bash
# tools/try_bug.sh ID...: apply a planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 880 ./check "$p" --no-evidence 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id $p rc=$rc"; echo "$out" | grep -v "^$" | tail -${LINES_:-4} | cut -c1-400
done
