#!/bin/bash
# Warms the build cache: the checks rebuild the harness from /repo themselves.
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cd "$(dirname "$0")/harness" || exit 1
out=$(mktemp -d /tmp/xsqlverif.XXXXXX) || exit 1
trap 'rm -rf "$out"' EXIT
go build -o "$out/h" . && go build -race -o "$out/hr" .
