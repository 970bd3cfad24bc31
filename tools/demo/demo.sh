#!/bin/bash
# run with cwd /repo: 0 when the images beside this script decode as they should
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
sed -e 's#^module .*#module demo#' "$repo/go.mod" >"$tmp/go.mod"
printf '\nrequire github.com/kpfaulkner/jxl-go v0.0.0\nreplace github.com/kpfaulkner/jxl-go => %s\n' "$repo" >>"$tmp/go.mod"
cp "$repo/go.sum" "$tmp/go.sum"
cd "$tmp" || exit 99
go build -o demo . || exit 98
for f in "$here"/*.jxl; do
  ./demo "$f" "${f%.jxl}.exp" "$@" || exit 1
done
exit 0
