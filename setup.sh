#!/bin/bash
# Warms the Go build cache so that the first check does not pay for it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$(mktemp -d)"
trap 'case "$bin" in /tmp/*) /bin/rm -rf "$bin";; esac' EXIT
(cd "$here/tool" && go build -o "$bin/govc" .)
