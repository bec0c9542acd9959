#!/bin/bash
# Warms the build cache: the checks build from /repo's tree themselves.
cd "$(dirname "$0")/harness" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
B=$(mktemp -d /tmp/llv-setup-XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
go build -cover -covermode=atomic -coverpkg=llverif,github.com/TooManySugar/ll1parser/pkg/... -o "$B/a" . || exit 1
go build -race -o "$B/b" . || exit 1
