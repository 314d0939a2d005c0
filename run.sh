#!/bin/bash
# run.sh <property> <quick|thorough>: build the symbolic executor and decide one property on /repo's working tree.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR REPO_DIR="${REPO_DIR:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$VERIF_DIR/.bin"
BIN="$VERIF_DIR/.bin/gosym"
if ! (cd "$VERIF_DIR/gosym" && go build -o "$BIN" .); then
  echo "the symbolic executor does not build"; exit 3
fi
exec "$BIN" "$1" "$2"
