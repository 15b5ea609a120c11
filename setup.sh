#!/bin/bash
# Builds every check once, so that later builds find a warm cache.
set -eu
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=readonly
cd harness
go build -buildvcs=false ./...
go vet ./pbt ./ref ./gens
mkdir -p ../evidence ../replays
