#!/bin/bash
# catch.sh [id...]: applies each seeded change to /repo, runs its property's check, undoes it. /repo must be clean.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./check.sh "${PROP:-$p}" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=${PROP:-$p} ")
  echo "$id ${PROP:-$p} rc=$rc violation=$v $(( $(date +%s) - s ))s"
  [ -n "$VERBOSE" ] && echo "$out" | grep -v '^$\|^proptest' | tail -8 | cut -c1-700
done
exit 0
