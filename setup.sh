#!/bin/bash
# Warms the build: compiles every harness once. Checks rebuild on their own.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off
cd "$ROOT/mc" && go vet ./kit ./ref >/dev/null 2>&1
for d in "$ROOT"/mc/c*/; do
  go test -c -vet=off -o /dev/null "./$(basename "$d")" || exit 1
done
