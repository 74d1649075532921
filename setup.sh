#!/bin/bash
# Warms Go's build cache with what the checks build; they build it again from
# /repo's working tree on every run.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp="$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX")" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$here/evidence"
cp -r "$here/harness" "$tmp/src" && cd "$tmp/src" || exit 3
go build -tags verif -o "$tmp/vh" . || exit 3
go build -tags verif -o "$tmp/setup" github.com/bnb-chain/zkbnb-setup || exit 3
go build -tags verif -race -o "$tmp/vh-race" . || exit 3
GOARCH=386 CGO_ENABLED=0 go build -tags verif -o "$tmp/vh-386" . || exit 3
go build -tags verif -o "$tmp/vlag" ./lag
echo "the harness builds"
