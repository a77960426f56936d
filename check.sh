#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds everything from /repo's working tree
# and decides property ID.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
DIR=$(mktemp -d /tmp/verif-$ID-XXXXXX)
trap 'rm -rf "$DIR"' EXIT
case $ID in C08|C09|C10|C12|C13|C18|C19|C23) RACE=race ;; esac
if ! bash "$HERE/build.sh" "$DIR" $RACE >"$DIR/build.log" 2>&1; then
  cat "$DIR/build.log" >&2
  echo "build failed" >&2
  exit 3
fi
"$DIR/hx" check -id "$ID" -tier "$TIER" -verif "$HERE" -work "$DIR"
