#!/bin/bash
# check.sh <ID> [quick|thorough] [extra vrun flags]: decides one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
. /opt/vp/env.sh 2>/dev/null || export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bindir=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$bindir"' EXIT
cd "$here/harness" || exit 2
go build -o "$bindir/vrun" ./cmd/vrun || { echo "build of the runner failed"; exit 2; }
bin=$("$bindir/vrun" -prop "$id" -which) || exit 2
case "$bin" in
  wcore)      go build -o "$bindir/wcore" ./cmd/wcore ;;
  wcore-race) go build -race -o "$bindir/wcore-race" ./cmd/wcore ;;
  wunit-race) go build -race -o "$bindir/wunit-race" ./cmd/wunit ;;
  wunit)      go build -o "$bindir/wunit" ./cmd/wunit ;;
esac || { echo "build of the checks against /repo failed"; exit 2; }
"$bindir/vrun" -prop "$id" -tier "$tier" -bindir "$bindir" -verif "$here" "$@"
