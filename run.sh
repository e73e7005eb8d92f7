#!/bin/bash
# usage: run.sh <property-id>   builds the checker if needed and runs one check
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
BIN="$V/bin/verifcheck"
if [ ! -x "$BIN" ] || [ -n "$(find "$V/checker" -maxdepth 1 -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p "$V/bin"
  (cd "$V/checker" && go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || { echo "cannot build the checker" >&2; exit 2; }
fi
exec "$BIN" -id "$1" -repo "${VERIF_REPO:-/repo}" -out "$V" ${VERIF_V:+-v}
