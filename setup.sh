#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself.
cd "$(dirname "$0")/harness" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
go build -o /dev/null ./cmd/vc || true
exit 0
