#!/bin/bash
# exit 0 if the property's guarantee that demo.go exercises holds on ./ (the
# repository), nonzero otherwise. Everything happens in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" "$tmp/run"
cp "$here"/*.go "$tmp/src/" || exit 3
sed -e 's#^module .*#module demo#' "$repo/go.mod" >"$tmp/src/go.mod"
printf '\nrequire github.com/bnb-chain/zkbnb-setup v0.0.0\nreplace github.com/bnb-chain/zkbnb-setup => %s\n' "$repo" >>"$tmp/src/go.mod"
cp "$repo/go.sum" "$tmp/src/"
flags="$(cat "$here/flags" 2>/dev/null)"
cd "$tmp/src" && go build $flags -o "$tmp/demo" . || exit 3
go build -o "$tmp/setup" github.com/bnb-chain/zkbnb-setup || exit 3
cd "$tmp/run" && SETUP="$tmp/setup" timeout 280 "$tmp/demo"
