#!/bin/bash
# mut.sh ID FILE PYTHON-REPLACE-OLD NEW: try one ad-hoc mutation of /repo against a check.
ID=$1; F=/repo/$2
cd /repo && git diff --quiet || { echo "repo dirty"; exit 9; }
python3 - "$F" "$3" "$4" <<'P' || { echo "NO MATCH"; exit 8; }
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
if o not in s: sys.exit(1)
open(f,'w').write(s.replace(o,n,1))
P
OUT=$(/verif/run.sh $ID quick 2>&1); rc=$?
git checkout -q -- .
echo "== $ID $2 [$3 -> $4]: rc=$rc"
echo "$OUT" | grep -E "FAILED|VIOLATION|error" | cut -c1-220 | head -4
