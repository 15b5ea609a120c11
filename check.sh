#!/bin/bash
# check.sh ID quick|thorough|replay [FILE]
# Builds the check of property ID against /repo's working tree and runs it.
set -u
ID=$1
MODE=$2
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOTELEMETRY=off GOFLAGS=-mod=readonly CGO_ENABLED=${CGO_ENABLED:-1}
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1}
BUILD=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
trap '/bin/rm -rf "$BUILD"' EXIT
lower=$(echo "$ID" | tr 'A-Z' 'a-z')
cd "$ROOT/harness" || exit 2
build() { # retries once: a build must not fail because of a transient shortage
  "$@" || { sleep 2; "$@"; } || { echo "build failed: $*" >&2; exit 2; }
}
build go build -buildvcs=false -o "$BUILD/$lower" "./cmd/$lower"
case $ID in
C03|C04|C06|C07|C13|C14|C15|C16)
  (cd /repo && build go build -buildvcs=false -o "$BUILD/addchain" ./cmd/addchain) || exit 2
  export VERIF_ADDCHAIN=$BUILD/addchain
  ;;
C20)
  (cd /repo && build go build -buildvcs=false -o "$BUILD/release" ./internal/tools/release) || exit 2
  export VERIF_RELEASE=$BUILD/release
  ;;
C12)
  build go build -buildvcs=false -race -o "$BUILD/$lower-race" "./cmd/$lower"
  export VERIF_RACE=$BUILD/$lower-race
  ;;
esac
if [ "$MODE" = thorough ]; then # instrumented for coverage-guided search
  build go test -c -vet=off -fuzz=FuzzSections -buildvcs=false -o "$BUILD/$lower.fuzz" "./cmd/$lower"
  [ -x "$BUILD/$lower.fuzz" ] && export VERIF_FUZZ=$BUILD/$lower.fuzz
fi
case $MODE in
quick|thorough) "$BUILD/$lower" run "$MODE" ;;
replay) "$BUILD/$lower" replay "$3" ;;
*) echo "usage: check.sh ID quick|thorough|replay [FILE]" >&2; exit 2 ;;
esac
