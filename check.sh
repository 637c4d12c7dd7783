#!/bin/bash
# check.sh PROPERTY TIER [CASE] : rebuild the monitors against /repo's working tree (race detector on) and run one check
set -u
cd "$(dirname "$0")"
HERE=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=$HERE/.cache/go-build
mkdir -p "$HERE/.build" "$GOCACHE" "$HERE/evidence"
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
BIN=$HERE/.build/vrun.$$
trap 'rm -f "$BIN"' EXIT
ulimit -c 0
( cd harness && go build -race -o "$BIN" ./cmd/vrun ) >"$HERE/.build/log.$$" 2>&1
rc=$?
if [ $rc -ne 0 ]; then cat "$HERE/.build/log.$$"; rm -f "$HERE/.build/log.$$"; echo "BUILD FAILED"; exit 2; fi
rm -f "$HERE/.build/log.$$"
[ "$ID" = build ] && exit 0
if [ $# -ge 3 ]; then "$BIN" -prop "$ID" -tier "$TIER" -verif "$HERE" -case "$3"; exit $?; fi
"$BIN" -prop "$ID" -tier "$TIER" -verif "$HERE"
