#!/bin/bash
# run_check.sh <property> [extra govc flags]: builds the verifier and checks one property against /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$(mktemp -d)"
trap 'case "$bin" in /tmp/*) /bin/rm -rf "$bin";; esac' EXIT
(cd "$here/tool" && go build -o "$bin/govc" .) || { echo "cannot build the verifier"; exit 2; }
"$bin/govc" check -repo /repo -verif "$here" -prop "$@"
