#!/bin/bash
# seedrun.sh <seed id> [property]: applies a planted change to /repo, runs its check, undoes it (development only)
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 3
python3 /verif/bin/check.py $p > /tmp/seedrun.$1.$p 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -m1 VIOLATION /tmp/seedrun.$1.$p) $(grep -m1 'NO VERDICT\|PROBLEM' /tmp/seedrun.$1.$p | cut -c1-200)"
