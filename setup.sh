#!/bin/bash
# Builds the instrumented tree once, which fills Go's build cache.
set -e
cd "$(dirname "$0")"
W=$(mktemp -d /tmp/vmc-setup.XXXX); trap 'rm -rf "$W"' EXIT
./build_mc.sh "$W"
cd "$W"
GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off go build ./vh/...
