#!/bin/bash
# builds the checker from the committed sources (offline, vendored)
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$V/bin"
cd "$V/checker"
go build -o "$V/bin/verifcheck" .
