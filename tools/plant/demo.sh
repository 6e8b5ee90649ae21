#!/bin/bash
# Runs the demonstration as an in-package test of /repo; run in /repo.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/zz_demo_helper_test.go": "$here/helper_test.go", "$PWD/zz_demo_test.go": "$here/demo_test.go"}}
J
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
