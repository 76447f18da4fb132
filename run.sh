#!/bin/bash
# run.sh <ID>: rebuild the harness from /repo's working tree and run one check.
VD="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$VD"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1 GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
ID="$1"
mkdir -p "$VD/.build" "$VD/evidence"
RACE=""; BIN="$VD/.build/harness"
if [ "$ID" = "C23" ]; then RACE="-race"; BIN="$VD/.build/harness-race"; fi
cd "$VD/harness" || exit 2
if ! go build $RACE -o "$BIN" . ; then echo "BUILD FAILED"; exit 2; fi
[ "$ID" = "build" ] && exit 0
exec "$BIN" check "$ID"
