#!/bin/bash
# run.sh ID [quick|thorough] [extra harness arguments]: one property's check.
# run.sh replay FILE: re-run a shrunk failing case.
# Seed: VERIF_SEED (default 1). Exit 0 held / 1 VIOLATION.
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/harness/env.sh"
ID="$1"; TIER="${2:-quick}"
REPLAY=
if [ "$ID" = replay ]; then
  REPLAY="$2"
  ID="$(sed -n 's/^property //p' "$REPLAY" | head -1)"
  if grep -q '^build-failure' "$REPLAY"; then exec "$V/run.sh" "$ID"; fi
fi
shift; shift
case "$ID" in
  C01|C02) H=rt; F=strings;;
  C03|C04) H=rt; F=vecs;;
  C05) H=rt; F=boxes;;
  C06|C07) H=rt; F=cxxstd;;
  C08|C09) H=rt; F=ptrs;;
  C10|C11|C26) H=rt; F=calls;;
  C12|C13|C14|C15|C16|C17|C22|C27|C29) H=e2e; F=rt;;
  C19|C20|C24) H=e2e; F=cmd;;
  C28) H=e2e; F='rt bld';;
  C23) H=e2e; F='rt cmd bld';;
  C25) H=e2e; F=bld;;
  C18|C21) H=e2e; F=gen;;
  *) echo "unknown property $ID"; exit 3;;
esac
SEED="${VERIF_SEED:-1}"
mkdir -p "$V/evidence" "$V/replays"
export TMPDIR="$(mktemp -d /tmp/vcheck.XXXXXX)"
trap '/bin/rm -rf "$TMPDIR"' EXIT
LOG="$TMPDIR/build.log"
t0=$(date +%s)
build() { bash "$V/harness/$H/build.sh" $F >"$LOG" 2>&1; }
if ! build && ! build; then
  # The harness only uses the public surface; when it stops building against
  # the current tree, the property's surface is broken.
  R="$V/replays/$ID-build.replay"
  { echo "property $ID"; echo "build-failure"; sed 's/^/# /' "$LOG" | tail -200; } > "$R"
  grep -E '^error|error:|error\[' "$LOG" | head -20
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"exploration","coverage":{"evaluations":1,"distinct_nontrivial":0,"rule":"The harness did not build against the current tree.","samples":[]},"wall_s":%s,"assumptions":[],"violations":["the harness does not build against /repo"]}\n' \
    "$ID" "$TIER" "$SEED" "$(( $(date +%s) - t0 ))" > "$V/evidence/$ID.json"
  echo "VIOLATION property=$ID replay=$R"
  exit 1
fi
echo "[$ID] harness built in $(( $(date +%s) - t0 ))s"
[ $H = e2e ] && F=e2e
BIN="$(cat "$V/harness/$H/target/bin.$F")"
. "$V/harness/runenv.sh"
if [ -n "$REPLAY" ]; then "$BIN" replay "$REPLAY"; exit $?; fi
"$BIN" check "$ID" --tier "$TIER" --seed "$SEED" --evidence "$V/evidence/$ID.json" --replays "$V/replays" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || { echo "harness ended with $rc"; exit 3; }
exit $rc
