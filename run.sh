#!/bin/bash
# run.sh PROPERTY [--replay FILE]: one check; VERIF_TIER and VERIF_SEED select the tier and the seed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here"
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$(mktemp -d /tmp/vjdrv.XXXXXX)" || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin/drv" ./cmd/drv) || { echo "ERROR: cannot build the driver" >&2; exit 2; }
"$bin/drv" "$@"
rc=$?
exit $rc
