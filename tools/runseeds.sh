#!/bin/bash
# Applies each planted bug to /repo, runs the check of its property (or the checks named in
# CHECKS), and undoes it. Usage: runseeds.sh [ID ...]; results on stdout.
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in ${@:-$(ls seeded seeded-extra | grep -v :)}; do
  d=seeded/$id; [ -d "$d" ] || d=seeded-extra/$id
  prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "/verif/$d/patch.diff" || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py "$c" 2>&1); rc=$?
    v=$(grep -c "^VIOLATION property=$c " <<<"$out")
    printf '%-34s %s rc=%d violation=%d %ds  %s\n' "$id" "$c" $rc $v $(($(date +%s)-s)) "$([ $rc = 1 ] && [ $v != 0 ] && echo caught || echo MISSED)"
  done
  git -C /repo checkout -q -- .
done
