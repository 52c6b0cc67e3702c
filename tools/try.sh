#!/bin/bash
# try.sh ID...: run the check of each planted bug's property with the bug applied
for i in "$@"; do d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
s=$(date +%s); cd /verif; out=$(python3 check.py $p ${TIER:-quick} 2>&1); rc=$?; git -C /repo checkout -q -- .
echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 -E 'VIOLATION|Error' | cut -c1-200)"; done
