#!/bin/bash
# replay.sh FILE: runs the one execution a VIOLATION line names.
HERE=$(cd "$(dirname "$0")" && pwd)
DIR=$(mktemp -d /tmp/verif-replay-XXXXXX)
trap 'rm -rf "$DIR"' EXIT
get() { python3 -c 'import json,sys;d=json.load(open(sys.argv[1]));v=d.get(sys.argv[2]);print(json.dumps(v or []) if sys.argv[2]=="choices" else v)' "$1" "$2"; }
BIN=hx RACE=
if [ "$(get "$1" race)" = True ]; then
  BIN=hxr RACE=race
  export GORACE="exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=$DIR/race"
fi
bash "$HERE/build.sh" "$DIR" $RACE || exit 3
cd "$DIR"
"$DIR/$BIN" worker -racelog "$DIR/race" -check "$(get "$1" property)" -tier "$(get "$1" tier)" -only "$(get "$1" case)" -choices "$(get "$1" choices)" -v
