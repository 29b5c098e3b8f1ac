#!/bin/bash
# try.sh PATCH [CHECK...]   apply a patch to a scratch copy of /repo, build it, run its
# tests (unless NOTEST is set), the demonstration beside the patch, and the given checks.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
P=$(realpath "$1"); shift
S=$(mktemp -d /tmp/try.XXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"
git -C "$S/repo" apply "$P" || { echo "PATCH DOES NOT APPLY"; exit 3; }
. /opt/vp/env.sh; cd "$S/repo"
go build ./... || { echo "DOES NOT BUILD"; exit 3; }
if [ -z "${NOTEST:-}" ]; then
    go test -json -vet=off -count=1 -timeout 10m ./... > "$S/log"
    python3 - "$S/log" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b.get('stable') or b.get('tests') or b
bad=[]
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except ValueError: continue
    if d.get('Action')=='fail': bad.append(d['Package'].replace('github.com/pinpt/ripsrc','')+' '+d.get('Test',''))
print('TESTS FAILED:' if bad else 'tests pass', bad[:6])
PY
fi
D=$(dirname "$P")
if [ -e "$D/demo.sh" -a -z "${NODEMO:-}" ]; then
    (cd "$S/repo" && bash "$D/demo.sh" > "$S/demo.out" 2>&1); rc=$?
    echo "demo with the patch: exit $rc: $(tail -2 "$S/demo.out" | tr '\n' ' ' | cut -c1-300)"
    (cd /repo && bash "$D/demo.sh" > "$S/demo.out" 2>&1); rc=$?
    echo "demo without:        exit $rc: $(tail -1 "$S/demo.out" | cut -c1-200)"
fi
mkdir "$S/verif"
cp -a "$V/harness" "$V/run.sh" "$V/known-findings.json" "$V/MANIFEST.json" "$S/verif/"
mkdir -p "$S/verif/evidence" "$S/verif/out"
sed -i "s|=> /repo\$|=> $S/repo|" "$S/verif/harness/go.mod"
for c in "$@"; do
    (cd "$S/verif" && VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./run.sh $c > "$S/check.out" 2>&1); rc=$?
    echo "== $c exit $rc ($(grep -c "^--- " "$S/check.out") lines): $(grep -m3 -e '^--- ' -e ERROR "$S/check.out" | cut -c1-${W:-260})"
done
