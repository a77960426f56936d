#!/bin/bash
# build.sh DIR: instruments /repo's working tree into DIR and builds the harness
# (DIR/hx), with "race" as second argument also its race build (DIR/hxr), in
# which the code under test and the standard library, but not the harness, are
# compiled with the race detector. Nothing is written into /repo.
set -e
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off
DIR=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
(cd "$HERE/tools/vgen" && GOFLAGS= go build -o "$DIR/vgen" .)
"$DIR/vgen" -repo "$REPO" -harness "$HERE/harness" -out "$DIR" >/dev/null
cd "$REPO"
export GOFLAGS=-mod=mod
go build -overlay "$DIR/overlay.json" -buildvcs=false -o "$DIR/hx" ./internal/zverif/hx
if [ "$2" = race ]; then
  go build -race -gcflags='go.f110.dev/go-memcached/internal/zverif/...=-race=false' -overlay "$DIR/overlay.json" -buildvcs=false -o "$DIR/hxr" ./internal/zverif/hx
fi
