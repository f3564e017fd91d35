#!/bin/bash
# Builds the harness once, which also shows that the toolchain works. Checks build what they need again.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp harness/go.mod "$tmp/go.mod"; cp /repo/go.sum "$tmp/go.sum"
(cd harness && for c in cmd/*; do go build -buildvcs=false -modfile "$tmp/go.mod" -o "$tmp/out" "./$c"; done)
java -version >/dev/null 2>&1
echo ok
