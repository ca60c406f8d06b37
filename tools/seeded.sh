#!/bin/bash
# tools/seeded.sh [id...]: applies each planted bug to /repo, runs the check of
# its property and undoes it. For development; no check uses it.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  out=$(./run.sh check "${CHECK:-$p}" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p exit $rc $(echo "$out" | grep '^VIOLATION' | head -1) ($(echo "$out" | tail -1))"
done
