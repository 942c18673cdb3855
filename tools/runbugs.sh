#!/bin/bash
# run the quick check of each seeded bug's property against it; usage: runbugs.sh [id ...]
cd /verif/seeded; ids="${@:-$(ls)}"; cd /verif
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
  s=$(date +%s)
  ./check.py $p --tier quick > /tmp/rb_$b.log 2>&1; rc=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $((e-s))s $(grep -c ^VIOLATION /tmp/rb_$b.log) violations"
done
