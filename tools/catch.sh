#!/bin/bash
# catch.sh ID...: run the property's quick check on /repo with planted bug ID
# applied (and undone afterwards), and say whether it was caught.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd /repo && git diff --quiet || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
for ID in "$@"; do
  B="$V/seeded/$ID"; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  git apply "$B/patch.diff" || { echo "$ID: DOES NOT APPLY"; continue; }
  T=$SECONDS; O=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick "$V/run.sh" $P quick 2>&1); rc=$?
  git checkout -q -- .
  echo "$ID ($P) rc=$rc $((SECONDS-T))s: $(echo "$O" | grep -E 'FAILED|^VIOLATION' | cut -c1-200 | head -3 | tr '\n' ' ')"
done
