#!/bin/bash
# tryseed.sh ID [PROP]: applies a planted bug to /repo, runs its property's quick check, undoes it
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
cd /verif; timeout 900 bin/check $p quick > /tmp/try.$1.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(grep -h VIOLATION /tmp/try.$1.log | head -3)"
