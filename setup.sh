#!/bin/bash
# Warms the build cache; every check builds the analyser again from its source.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOSUMDB=off
bin="$(mktemp -d /tmp/agv.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
cd "$here" && go build -o "$bin/agv" ./cmd/agv
