#!/bin/bash
# seedcheck.sh ID [check-ids...]: validates a planted bug in a scratch copy of
# /repo and, if check ids are given (or 'own'), runs those checks against it.
ID=$1; shift
S=/verif/seeded/$ID
D=$(mktemp -d /tmp/seed.XXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cd "$D/repo" || exit 3
git checkout -q -- . 
cp -r "$S" "$D/demo"; rm -f "$D"/demo/*.diff "$D"/demo/meta.json
( bash "$D/demo/demo.sh" ) >"$D/clean.log" 2>&1 || { tail -20 "$D/clean.log"; echo "$ID: demo fails on clean tree"; exit 1; }
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
go build ./... || { echo "$ID: does not build"; exit 1; }
go test -vet=off -count=1 ./... >"$D/test.log" 2>&1 || { grep -E '^(---|FAIL|panic)' "$D/test.log" | head; echo "$ID: tests fail"; exit 1; }
( bash "$D/demo/demo.sh" ) >"$D/bug.log" 2>&1 && { echo "$ID: demo passes with the bug"; exit 1; }
echo "$ID: valid ($(grep -E -m1 'demo_test.go|panic|FAIL' "$D/bug.log" | cut -c1-150))"
[ $# -eq 0 ] && exit 0
[ "$1" = own ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 3; }
git -C /repo apply "$S/patch.diff"
for c in "$@"; do
  s=$(date +%s); (cd /verif && ./run.sh $c quick) >"$D/check.log" 2>&1; rc=$?
  echo "$ID: $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^C[0-9]*:' "$D/check.log" | cut -c1-200)"
done
git -C /repo checkout -- .
