#!/bin/bash
# trybug.sh ID [--notest] [PROPS...]: confirms a planted bug in a scratch copy of /repo:
# builds, stable tests, demo on both trees, then runs the check(s) against the copy.
ID=$1; shift
TEST=1; [ "$1" = "--notest" ] && { TEST=0; shift; }
. /opt/vp/env.sh
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/fsvbug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/seed"
cd "$W/repo" || exit 9
( timeout 300 bash "$W/seed/demo.sh" >$W/demo0.log 2>&1 ); d0=$?
git apply "$S/patch.diff" || { echo "$ID: PATCH FAILS"; exit 9; }
for f in $(git diff --name-only); do touch $f; done
"$PY" setup.py -q build_ext --inplace >$W/b.log 2>&1 || { echo "$ID: BUILD FAILS"; tail $W/b.log; exit 9; }
( timeout 300 bash "$W/seed/demo.sh" >$W/demo1.log 2>&1 ); d1=$?
t=skipped
if [ $TEST = 1 ]; then
 TMPDIR=$W PYTHONPATH=/opt/vp/plugins:$W/repo/src "$PY" -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 --deselect tests/test_temporal_network.py::TestTempNetwork -o junit_family=xunit2 --junitxml=$W/junit.xml tests >$W/t.log 2>&1
 /usr/bin/python3 /opt/vp/results.py $W/out.json junit:$W/junit.xml >/dev/null
 t=$(/usr/bin/python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('$W/out.json'))['passed']);m=[x for x in b if x not in o];print('ok' if not m else 'BROKEN '+str(m))")
fi
echo "$ID: demo base=$d0 patched=$d1 tests=$t"
[ $d0 != 0 ] && tail -5 $W/demo0.log
PROPS="$@"; [ -z "$PROPS" ] && PROPS=$(/usr/bin/python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in $PROPS; do
 FSV_SRC=$W/repo/src FSV_EVID=$W/ev /verif/run $p quick >$W/c.log 2>&1; rc=$?
 echo "$ID: check $p rc=$rc $(grep -A1 -m1 VIOLATION $W/c.log | tr '\n' ' ' | cut -c1-220)"; [ $rc -gt 1 ] && tail -5 $W/c.log
done
exit 0
