#!/bin/bash
# bug.sh ID...: confirm planted bugs in a scratch copy of /repo (/tmp/scratch):
# the patch applies, builds, passes the stable tests, and the demo tells the two
# trees apart. CHECK=1 also runs the property's quick check on /repo with it.
V="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/scratch
. /opt/vp/env.sh
[ -d $S ] || cp -a /repo $S
for ID in "$@"; do
  B="$V/seeded/$ID"; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
  cd $S && git checkout -q -- . && git fetch -q /repo && git checkout -q FETCH_HEAD || exit 9
  bash "$B/demo.sh" >/tmp/bug.clean 2>&1; c=$?
  git apply "$B/patch.diff" || { echo "$ID: DOES NOT APPLY"; continue; }
  timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/bug.test 2>&1
  sed -E -e 's/\x1b\[[0-9;]*m//g' -e 's/^(test tests\/ui\/[^ ]+\.rs)( \[should [^]]*\])? \.\.\. ok$/\1 ... ok/' -e 's/^(test tests\/ui\/[^ ]+\.rs)( \[should [^]]*\])? \.\.\. (error|mismatch|wip)$/\1 ... FAILED/' /tmp/bug.test > /tmp/bug.norm
  python3 /opt/vp/results.py /tmp/bug.json "cargo:/tmp/bug.norm" >/tmp/bug.sum 2>&1
  bash "$B/demo.sh" >/tmp/bug.patched 2>&1; p=$?
  git checkout -q -- .
  echo "$ID ($P): demo clean=$c patched=$p tests: $(tail -1 /tmp/bug.sum)"
  if [ -n "$CHECK" ]; then
    cd /repo && git diff --quiet || { echo "repo dirty"; exit 9; }
    git apply "$B/patch.diff"
    O=$("$V/run.sh" $P quick 2>&1); rc=$?
    git checkout -q -- .
    echo "   check rc=$rc: $(echo "$O" | grep -E 'FAILED|^VIOLATION' | cut -c1-260 | head -3 | tr '\n' ' ')"
  fi
done
