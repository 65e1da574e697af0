#!/bin/bash
# run.sh PROPERTY TIER: build the analyser from /verif/analyzer and decide one
# property of the source in /repo (or $SVB_REPO). Exit 0: held; 1: violation.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}
export PATH=/usr/local/go/bin:$PATH
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
unset GOOS GOARCH GOEXPERIMENT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
export HOME=${HOME:-/root}
bin=$here/bin/svb
build() { mkdir -p "$here/bin" && (cd "$here/analyzer" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin"); }
if ! build; then
  echo "the analyser does not build" >&2
  exit 2
fi
[ -n "$id" ] || exit 0   # setup: only build
exec "$bin" -prop "$id" -tier "$tier" -out "$here"
