#!/bin/bash
# check.sh <property> [quick|thorough]      build from /repo's working tree, then decide the property
# check.sh --replay <file>                  re-run one saved failing case
# Exit 0: held on everything explored.  1: VIOLATION line printed.  Anything else: the check itself failed.
set -u
V=$(cd "$(dirname "$0")" && pwd)
cd "$V" || exit 2
target_of() { awk -v p="$1" '$1==p{print $2}' "$V/harness/targets"; }
if [ "${1:-}" = --replay ]; then
  P=$(awk '$1=="property"{print $2; exit}' "$2")
  T=$(target_of "$P"); [ -n "$T" ] || { echo "no target for '$P'" >&2; exit 2; }
  X=$(awk '$1=="variant"{print $2; exit}' "$2"); [ -n "$X" ] && T=$T-$X
  "$V/build.sh" "$T" || exit 3
  exec "$V/build/$T" --replay "$2"
fi
P=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=$(printf '%s' "$SEED" | cksum | cut -d' ' -f1);; esac
T=$(target_of "$P"); [ -n "$T" ] || { echo "no target for '$P'" >&2; exit 2; }
mkdir -p evidence replays
rm -f "$V/evidence/$P.json"
X=$(awk -v p="$P" '$1==p{print $3}' "$V/harness/targets")   # a second build of the harness, for the sub-checks with threads
"$V/build.sh" "$T" || exit 3
[ -z "$X" ] || "$V/build.sh" "$T-$X" || exit 3
if [ "$TIER" = thorough ]; then CAP=${TIME_CAP:-1500}; else CAP=${TIME_CAP:-150}; fi
grep -s "^KNOWN-FINDING: property=$P " "$V/known-findings.txt"
E=$V/evidence/$P.json
run() { "$V/build/$1" --prop "$P" --tier "$TIER" --seed "$SEED" --replay-dir "$V/replays" --time-cap "$CAP" "${@:2}"; }
if [ -n "$X" ] && ! "$V/build/$T-$X" --list >/dev/null 2>&1; then
  echo "the $X build does not run on this system: only the other one is used" >&2
  X=
fi
run "$T" --evidence "$E"; RC=$?
if [ -n "$X" ] && [ $RC -eq 0 ]; then
  run "$T-$X" --variant "$X" --evidence "$E.$X"; R2=$?
  if [ $R2 -le 1 ]; then python3 "$V/tools/merge.py" "$E" "$E.$X" || R2=2; fi
  rm -f "$E.$X"
  [ $R2 -gt $RC ] && RC=$R2
fi
exit $RC
