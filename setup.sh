#!/bin/bash
# builds the harness once (warms the build cache); every check rebuilds it against /repo's working tree
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=${HOME:-/root}
mkdir -p build evidence
cd harness && go build -o ../build/vharness . && go build -race -o ../build/vharness-race .
