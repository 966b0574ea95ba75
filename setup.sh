#!/bin/bash
# setup.sh: warms the Go build cache with what every check builds; the checks rebuild from /repo themselves.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
cd "$here/harness" && go build -o /dev/null ./cmd/drv && go build -o /dev/null ./cmd/vjgen && echo setup done
