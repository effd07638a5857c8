#!/bin/bash
# try_bug.sh ID [Pnn]: applies a planted bug to /repo, runs the check of its property, undoes it
for i in "$1"; do
  p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$i/patch.diff || exit 3
  (cd /verif && timeout 900 python3 mc/run.py $p 2>&1 | cut -c1-200 | tail -${N:-3}; echo "$i $p rc=${PIPESTATUS[0]}")
  git -C /repo checkout -- .
done
