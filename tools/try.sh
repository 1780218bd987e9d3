#!/bin/bash
# try.sh <seed> [<property>]  applies a planted bug, runs the check, and undoes the change
s=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply "$s/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
r=$(/verif/check.sh "$p" 2>&1); rc=$?
echo "$1 $p rc=$rc $(echo "$r" | grep -m1 VIOLATION)"
[ $rc = 1 ] || echo "$r" | tail -5
