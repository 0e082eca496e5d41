#!/bin/bash
# valseed.sh [--nocheck] ID...: confirms planted changes (applies to /repo, builds, stable tests, demo) and runs their property's check
NC=; [ "$1" = --nocheck ] && { NC=1; shift; }
cd /repo || exit 1
git diff --quiet || { echo "/repo is dirty"; exit 1; }
undo() { git -C /repo checkout -- . ; bash /opt/vp/build.sh >/tmp/vs.$$.build 2>&1; }
trap undo EXIT
bash /opt/vp/build.sh >/tmp/vs.$$.build 2>&1 || { echo "base build failed"; exit 1; }
declare -A CLEAN
for i in "$@"; do
  D=/verif/seeded/$i; T=$(mktemp -d); cp $D/demo* $D/*.hpp $T 2>/dev/null
  (bash $T/demo.sh >/tmp/vs.$i.clean 2>&1); CLEAN[$i]=$?; rm -rf $T
done
for i in "$@"; do
  D=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git apply $D/patch.diff || { echo "$i: DOES NOT APPLY"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/vs.$$.build 2>&1 || b=FAIL
  bash /opt/vp/test.sh /tmp/vs.$$.json >/dev/null 2>&1
  t=$(python3 -c "
import json;o=json.load(open('/tmp/vs.$$.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=[x for x in b['stable'] if x not in o['passed']];print('ok' if not m else 'FAIL'+str(m))")
  T=$(mktemp -d); cp $D/demo* $D/*.hpp $T 2>/dev/null
  (bash $T/demo.sh >/tmp/vs.$i.bug 2>&1); dr=$?; rm -rf $T
  c=-; if [ -z "$NC" ]; then (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash check.sh $P quick >/tmp/vs.$i.check 2>&1); rc=$?; if [ $rc = 1 ] && grep -q "VIOLATION property=$P " /tmp/vs.$i.check; then c=CAUGHT; else c="MISSED($rc)"; fi; fi
  v=VALID; [ $b = ok ] && [ "$t" = ok ] && [ ${CLEAN[$i]} = 0 ] && [ $dr != 0 ] && [ $dr != 8 ] && [ $dr != 9 ] || v=INVALID
  echo "$i $P $v build=$b tests=$t demo-clean=${CLEAN[$i]} demo-bug=$dr $c"
  git checkout -- .
done
