#!/bin/bash
# Builds the monitors once, which also warms the build cache.
export PATH=/usr/local/go/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd "$here/harness" && go build -o /dev/null . && go build -race -o /dev/null .
