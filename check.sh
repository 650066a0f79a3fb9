#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current tree
# check.sh --replay <file>               re-execute a recorded counterexample on the real build
# check.sh --setup                       compile engine and harnesses once
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
( cd "$here/engine" && go build -o "$work/gosym" . ) || { echo "ERROR: engine build"; exit 2; }
export TMPDIR=$work
case "$1" in
--setup)
    "$work/gosym" -verif "$here" -prop A01 -list >/dev/null || exit 2
    ( cd "$here/harness" && go build -o "$work/native" ./cmd/native ) || exit 2
    exit 0 ;;
--replay)
    "$work/gosym" -verif "$here" -replay "$2"
    exit $? ;;
esac
"$work/gosym" -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
