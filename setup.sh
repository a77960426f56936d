#!/bin/bash
# Warms the build cache: builds the instrumenter and the harness once.
HERE=$(cd "$(dirname "$0")" && pwd)
DIR=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$DIR"' EXIT
bash "$HERE/build.sh" "$DIR" router
