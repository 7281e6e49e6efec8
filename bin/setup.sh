#!/bin/bash
# Warms the Go build cache; the checks build everything they need themselves.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(mktemp -d) || exit 1
cp -r "$(dirname "$0")/../harness" "$d/harness" || exit 1
cd "$d/harness" || exit 1
go build -tags ne -o "$d/drv" ./drv && go build -race -tags ne -o "$d/drvr" ./drv
rc=$?
rm -rf "$d"
exit $rc
