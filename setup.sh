#!/bin/bash
# Builds the instrumenter once, so that the Go build cache is warm. Nothing the
# checks need is left behind: each check builds what it runs from /repo.
cd "$(dirname "$0")/sim" || exit 1
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p ../.build ../evidence ../replays
T=$(mktemp -d ../.build/setup.XXXXXX) || exit 1
go build -o "$T/instr" ./cmd/instr
R=$?
rm -rf "$PWD/../.build/$(basename "$T")"
exit $R
