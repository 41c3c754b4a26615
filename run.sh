#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra gosym flags]
# Builds the checker from /verif/gosym if needed and decides one property
# on the current working tree of /repo.
cd "$(dirname "$0")" || exit 2
verif=$(pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GO111MODULE=on
bin=$verif/bin/gosym
if [ ! -x "$bin" ] || [ -n "$(find gosym -name '*.go' -newer "$bin" -print -quit)" ]; then
    mkdir -p bin
    (cd gosym && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build gosym" >&2; exit 2; }
fi
[ "$1" = "--build" ] && exit 0
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
exec "$bin" -prop "$prop" -tier "$tier" -verif "$verif" -repo "${VERIF_REPO:-/repo}" "$@"
