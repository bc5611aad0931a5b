#!/bin/bash
# tools/seedtest.sh ID [check ids...]: validates /verif/seeded/ID in a scratch copy of /repo and runs the named quick checks (default: its property)
id=$1; shift
d=${SEEDS:-/verif/seeded}/$id
W=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a /repo "$W/repo"
run() { (cd $W/repo && PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1 "$@"); }
fail=0
run timeout 300 bash $d/demo.sh >$W/out 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -5 $W/out; fail=1; }
git -C $W/repo apply $d/patch.diff || { echo "$id: patch does not apply"; fail=1; }
if run timeout 300 bash $d/demo.sh >$W/out 2>&1; then echo "$id: demo passes with the patch"; fail=1; fi
t=$(run /opt/venv/bin/python -m pytest -q -x test 2>&1 | tail -1); case "$t" in *failed*|*error*) echo "$id: tests $t"; fail=1;; esac
props=$*; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ "$props" = none ] && props=
for p in $props; do
  cp -a /verif "$W/verif" 2>/dev/null
  s=$(date +%s)
  o=$(cd $W/verif && VERIF_REPO=$W/repo timeout 900 python3 -m mc.run $p quick 2>&1); rc=$?
  echo "$id $p: rc=$rc $(echo "$o" | grep -c '^VIOLATION') violation(s) $(( $(date +%s) - s ))s"
  [ $rc = 1 ] || echo "$o" | tail -3
done
[ $fail = 0 ] && echo "$id: valid ($t)"
rm -rf "$W"
