#!/bin/bash
# runseeds.sh [-a] [ID...]: applies each planted bug to /repo, runs the check of
# its property (-a: every check) and undoes it.
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = -a ] && { all=1; shift; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
for id in "${ids[@]}"; do
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  checks=$prop; [ -n "$all" ] && checks=$(seq -f 'P%02g' 1 28)
  for c in $checks; do
    s=$(date +%s)
    out=$(./run.sh $c quick 2>&1); rc=$?
    v=$(echo "$out" | grep -c "^VIOLATION property=$c ")
    [ -n "$all" ] && [ $rc = 0 ] || echo "$id $c rc=$rc violation=$v $(( $(date +%s) - s ))s"
  done
  git -C /repo checkout -q -- .
done
