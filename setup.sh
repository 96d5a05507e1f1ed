#!/bin/bash
# Builds the harness once, which fills Go's build cache for the checks.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$DIR/harness" && go build -o /dev/null ./... && go vet ./... && go build -race -o /dev/null ./cmd/verif
