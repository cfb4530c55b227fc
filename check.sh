#!/bin/bash
# check.sh <property>...: builds the analyser and decides the properties from
# the source in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off
bin="$(mktemp -d /tmp/agv.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here" && go build -o "$bin/agv" ./cmd/agv) >"$bin/log" 2>&1; then
  cat "$bin/log"
  exit 2
fi
AGV_VERIF="$here" AGV_REPO="${AGV_REPO:-/repo}" "$bin/agv" "$@"
