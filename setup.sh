#!/bin/bash
# Builds the analyser from the committed sources (vendored, offline).
set -eu
cd "$(dirname "$0")"
mkdir -p bin out evidence
if [ -x bin/kyvelint ] && [ -z "$(find kyvelint -newer bin/kyvelint -type f -print -quit)" ]; then exit 0; fi
GO=go
for g in go1.26 go1.27 go; do
  if command -v $g >/dev/null 2>&1 && $g version 2>/dev/null | grep -Eq 'go1\.(2[6-9]|[3-9][0-9])'; then GO=$g; break; fi
done
cd kyvelint
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-$(cd .. && pwd)/bin/gocache}
$GO build -trimpath -o ../bin/kyvelint.new . && mv ../bin/kyvelint.new ../bin/kyvelint
