#!/bin/bash
# Builds every variant of the monitors once, to fill the build cache.
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $d/go ] && { export PATH=$d:$PATH; break; }; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
cd "$here/harness" || exit 1
go build -o /dev/null . && go build -tags=purego -o /dev/null . &&
go build -race -gcflags=github.com/jhump/gopoet=-d=checkptr -o /dev/null . &&
GOARCH=386 CGO_ENABLED=0 go build -o /dev/null .
