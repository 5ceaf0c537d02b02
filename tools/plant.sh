#!/bin/bash
# plant.sh ID...: confirm planted bugs in /verif/seeded/ID in scratch copies of /repo (applied, tested, demonstrated, checked)
export PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/wt_$id; rm -rf "$w"
  git clone -q /repo "$w"
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/demo0_$id.log 2>&1); d0=$?
  git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  mkdir -p "$w.cwd"
  t=$(cd "$w.cwd" && PYTHONPATH="$w:/opt/vp/lib" timeout 600 /opt/venv/bin/python -m pytest -q --rootdir="$w" -p no:cacheprovider -p pytest_timeout -p vp_seed --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w.cwd/junit.xml" "$w/test" >/tmp/plant_test_$id.log 2>&1; /opt/venv/bin/python /opt/vp/results.py "$w.cwd/out.json" "junit:$w.cwd/junit.xml" >/dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=set(b.get('passed') or b['stable'])
o=set(json.load(open('$w.cwd/out.json'))['passed'])
print(len(b-o))")
  (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/demo1_$id.log 2>&1); d1=$?
  c="-"
  if [ -z "$NOCHECK" ]; then (cd /verif && MC_REPO="$w" VERIF_SEED=1 timeout 900 python3 run.py $p >/tmp/plant_check_$id.log 2>&1); c=$?; fi
  echo "$id $p: demo clean=$d0 patched=$d1 tests_lost=$t check=$c  $(tail -1 /tmp/demo1_$id.log | cut -c1-100) | $(grep -m1 -A1 VIOLATION /tmp/plant_check_$id.log | tail -1 | cut -c1-200)"
  rm -rf "$w" "$w.cwd"
done
