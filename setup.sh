#!/bin/bash
# Builds the harness once (warms the Go build cache) and syntax-checks the specifications.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
set -e
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$(dirname "$0")/harness" "$tmp/h"
cd "$tmp/h"
go test -c -vet=off -o "$tmp/h.test" .
