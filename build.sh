#!/bin/bash
# builds /verif/bin/bpcheck offline from /verif/cmd and the module cache
set -eu
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
export HOME="${HOME:-/root}"
export GOCACHE="${GOCACHE:-$here/bin/gocache}"
if [ -x bin/bpcheck ] && [ -z "$(find cmd go.mod go.sum -newer bin/bpcheck -print -quit)" ]; then
  exit 0
fi
mkdir -p bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o bin/bpcheck.tmp ./cmd/bpcheck
mv bin/bpcheck.tmp bin/bpcheck
