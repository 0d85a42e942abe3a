#!/bin/bash
# Runs demo_test.go (beside this file, with the other *_test.go files here)
# inside the package it names, against the tree in the current directory,
# without adding anything to that tree.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
pkg=$(sed -n 's,^// pkg: ,,p' "$here/demo_test.go")
tmp=$(mktemp -d /tmp/seeddemo.XXXXXX); trap 'rm -rf "$tmp"' EXIT
sep=
{ printf '{"Replace":{'
for f in "$here"/*_test.go; do
  printf '%s"%s/%s/zz_seed_%s":"%s"' "$sep" "$PWD" "$pkg" "$(basename "$f")" "$f"; sep=,
done
printf '}}'; } > "$tmp/ov.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/ov.json" -run '^TestSeedDemo$' "./$pkg"
