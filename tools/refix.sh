#!/bin/bash
# refix.sh: take back each fix: commit in a scratch copy and run the check of its property
V="$(cd "$(dirname "$0")/.." && pwd)"
T=/tmp/refix; rm -rf $T; mkdir -p $T
python3 - <<'P' > $T/list
import json
for l in json.load(open('/verif/known-findings.json'))['fixed']:
    w=l.split(); print(w[2], w[1].split('=')[1])
P
while read sha id; do
    rm -rf $T/repo; cp -a /repo $T/repo
    if ! git -C $T/repo -c user.name=x -c user.email=x@x revert --no-commit $sha >$T/err 2>&1; then echo "$sha $id CONFLICT"; git -C $T/repo diff --name-only --diff-filter=U; continue; fi
    git -C $T/repo diff HEAD > $T/patch.diff
    [ -s $T/patch.diff ] || { echo "$sha $id EMPTY"; continue; }
    echo "== $sha $id"; NOTEST=1 "$V/tools/try.sh" $T/patch.diff $id 2>&1 | cut -c1-220
done < $T/list
rm -rf $T
