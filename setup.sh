#!/bin/bash
# Builds the monitors once (also the race detector build), so that the later builds are quick.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/.build" "$here/evidence"
cd "$here/harness"
go vet . || exit 1
go build -o "$here/.build/vmon" .
CGO_ENABLED=1 go build -race -o "$here/.build/vmon.race" .
rm -f "$here/.build/vmon" "$here/.build/vmon.race"
echo ok
