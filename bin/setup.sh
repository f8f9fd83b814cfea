#!/bin/bash
# Builds the monitor once (with and without the race detector), which fills the build cache.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
cd /verif/mon || exit 2
out=$(mktemp -d /tmp/monsetup.XXXXXX) || exit 2
go build -o "$out/mon" . && go build -race -o "$out/mon" .
rc=$?
rm -rf "$out"
exit $rc
