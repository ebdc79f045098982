#!/bin/bash
# tools/catch.sh NAME [ID...]: apply seeded/NAME to /repo, run the checks (default: its property's), undo.
root=/verif; name="$1"; shift; d=$root/seeded/$name
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$d/patch.diff" || exit 1
for i in $ids; do $root/check $i ${TIER:-quick} > /tmp/catch.log 2>&1; r=$?; echo "$name $i exit=$r $(grep -m1 VIOLATION /tmp/catch.log | cut -c1-160)"; grep -A2 -m1 VIOLATION /tmp/catch.log | tail -2 | cut -c1-200; done
git -C /repo checkout -q -- .
