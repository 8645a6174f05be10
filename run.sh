#!/bin/bash
# run.sh PROPERTY... : builds the checker from /verif/checker (vendored, offline) and decides the properties for /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export XDBCHECK_VERIF=${XDBCHECK_VERIF:-$here}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/checker" && go build -o "$tmp/xdbcheck" .) || { echo "cannot build the checker" >&2; exit 2; }
"$tmp/xdbcheck" check "$@"
