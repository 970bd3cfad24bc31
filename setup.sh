#!/bin/bash
# Compiles the runner and the workers once, so that the later builds come from the cache.
cd "$(dirname "$0")/harness" || exit 1
. /opt/vp/env.sh 2>/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
go build -o "$d/vrun" ./cmd/vrun || exit 1
# the workers are built by each check; failing here must not stop the others
go build -o "$d/wcore" ./cmd/wcore
go build -o "$d/wunit" ./cmd/wunit
go build -race -o "$d/wcore-race" ./cmd/wcore
go build -race -o "$d/wunit-race" ./cmd/wunit
exit 0
