#!/bin/bash
# run.sh <property> <tier>: builds the harness of one property from /repo's
# current working tree and runs it. Exit 0: held. Exit 1 + VIOLATION: broken.
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
pkg="$(echo "$ID" | tr 'A-Z' 'a-z')"
mkdir -p "$ROOT/out" "$ROOT/evidence"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
cd "$ROOT/mc" || exit 3
opts=()
if [ -f "$pkg/hookldb" ]; then
  if ! "$ROOT/tools/hookldb.sh" "$work/ldb"; then echo "BUILD-ERROR property=$ID"; exit 3; fi
  opts=(-modfile="$work/ldb/go.mod" -tags hookldb)
fi
if ! go test -c -vet=off "${opts[@]}" -o "$work/check" "./$pkg" >"$work/build.log" 2>&1; then
  cat "$work/build.log"; echo "BUILD-ERROR property=$ID"; exit 3
fi
if [ -f "$pkg/race" ]; then
  if ! CGO_ENABLED=1 go test -race -c -vet=off "${opts[@]}" -o "$work/race" "./$pkg" >"$work/build.log" 2>&1; then
    cat "$work/build.log"; echo "BUILD-ERROR property=$ID"; exit 3
  fi
  export VERIF_RACE="$work/race"
fi
cd "$work" || exit 3
log="$ROOT/out/$ID.log"
GOTRACEBACK=all "$work/check" -test.run '^TestCheck$' -test.timeout 0 -test.count 1 >"$log" 2>&1
rc=$?
tail -c 20000 "$log"
if [ $rc -eq 0 ]; then exit 0; fi
if grep -q "^VIOLATION property=$ID " "$log"; then exit 1; fi
# The harness process itself died. Inside the code under test that is a crash
# (fatal error, deadlock, exhausted stack): a violation.
if grep -qE '^(fatal error|panic|runtime: goroutine stack exceeds)' "$log" && grep -q 'github.com/Bren2010/katie' "$log"; then
  cp "$log" "$ROOT/out/violation-$ID.log"
  echo "VIOLATION property=$ID replay=$ROOT/out/violation-$ID.log"
  exit 1
fi
echo "CHECK-ERROR property=$ID rc=$rc"; exit 3
