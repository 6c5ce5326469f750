#!/bin/bash
# Warms the build cache and checks the oracles against standard vectors.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOFLAGS=-buildvcs=false GOTOOLCHAIN=local
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/harness" "$tmp/src"
cd "$tmp/src"
CGO_ENABLED=0 go build -o "$tmp/vh" .
CGO_ENABLED=1 go build -race -o "$tmp/vhr" .
CGO_ENABLED=0 go build -tags faketime -o "$tmp/vhc" . || true
CGO_ENABLED=0 go vet ./perturb
[ "$(go env GOHOSTARCH)" != amd64 ] || CGO_ENABLED=0 GOARCH=386 go build -o "$tmp/vh386" .
"$tmp/vh" selftest
