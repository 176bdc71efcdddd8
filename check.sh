#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the verifier when needed, then decides the property for /repo's current tree.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
BIN=$ROOT/bin/govc
if [ ! -x "$BIN" ] || [ -n "$(find "$ROOT/govc" -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p "$ROOT/bin"
  (cd "$ROOT/govc" && GOFLAGS=-mod=vendor go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || exit 2
fi
[ "$1" = setup ] && exit 0
exec "$BIN" -root "$ROOT" -repo "${VERIF_REPO_DIR:-/repo}" -prop "$1" -tier "${2:-quick}" ${VERIF_ARGS}
