#!/bin/bash
# Builds every harness once (warms the build cache); offline.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOWORK=off
cd "$(dirname "$0")/harness" || exit 1
tmp=$(mktemp -d /tmp/pbtsetup.XXXXXX); trap 'rm -rf "$tmp"' EXIT
cp go.mod go.sum "$tmp/"
go build -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/" ./cmd/... && mkdir -p ../evidence ../replays
