#!/bin/bash
# demonstration: exit 0 when the library behaves, nonzero when it does not; run with the repository as working directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here"/src/. "$tmp"
cp "$repo"/go.sum "$tmp"/go.sum
cat > "$tmp"/go.mod <<M
module demo

go 1.24

require github.com/danomagnum/gologix v0.0.0

require github.com/npat-efault/crc16 v0.0.0-20161013170008-4128ccbe47c3 // indirect

replace github.com/danomagnum/gologix => $repo
M
cd "$tmp" || exit 3
go build RACE -o "$tmp"/demo.bin . || exit 3
ulimit -c 0
timeout 200 "$tmp"/demo.bin
