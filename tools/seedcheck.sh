#!/bin/bash
# seedcheck.sh [ID...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 timeout 900 /opt/venv/bin/python -m vp.run $p > /tmp/seed_$i.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i $p exit $r $(grep -m1 -E 'VIOLATION|INCONC' /tmp/seed_$i.log | cut -c1-90) $(tail -1 /tmp/seed_$i.log | cut -c1-100)"
done
