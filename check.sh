#!/bin/bash
# check.sh PROPERTY TIER [extra flags]: rebuilds the harness of one property
# against /repo's working tree and runs it.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}; shift 2
export VERIF_ROOT=$here VERIF_TIER=$tier
cmd=$(grep -l "\"$prop\"" "$here"/harness/cmd/*/*.go 2>/dev/null | head -1)
[ -n "$cmd" ] || { echo "no harness for $prop"; exit 2; }
bin=$(mktemp -d /tmp/pbtbin.XXXXXX)
trap 'rm -rf "$bin"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$bin/"
(cd "$here/harness" && go build -buildvcs=false -modfile="$bin/go.mod" -o "$bin/pbt" "$(dirname "$cmd")") || { echo "ERROR: build failed"; exit 2; }
"$bin/pbt" -prop "$prop" -tier "$tier" "$@"
