#!/bin/bash
# usage: run.sh PROPERTY [CASE]
# Rebuilds the monitors together with /repo's current working tree and runs the check of one property.
# VERIF_SEED (default 1) and VERIF_TIER (quick or thorough) select what is explored.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
shift
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
race=
case $prop in C16) race=-race; export CGO_ENABLED=1 ;; esac
mkdir -p "$here/.build"
bin=$(mktemp -d "$here/.build/run.XXXXXX")
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/harness" && go build $race -o "$bin/vmon" .) >"$bin/build.log" 2>&1; then
	echo "the monitors do not build against /repo:"
	head -c 4000 "$bin/build.log"
	exit 3
fi
if ! (cd /repo && go build -o "$bin/goslice" ./cmd/goslice) >"$bin/build.log" 2>&1; then
	echo "/repo does not build:"
	head -c 4000 "$bin/build.log"
	exit 3
fi
export VMON_CLI="$bin/goslice"
"$bin/vmon" run "$prop" "$here" "$@"
