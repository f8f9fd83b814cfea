#!/bin/bash
# check.sh <ID> [mon flags]: builds the monitor against /repo's working tree and
# runs one property's check. VERIF_SEED and VERIF_TIER select the cases.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
id=$1; shift
bin=$(mktemp -d /tmp/monbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
flags=()
case " C18 " in *" $id "*) flags+=(-race);; esac
cd /verif/mon || exit 2
go build "${flags[@]}" ${MON_BUILDFLAGS:-} -o "$bin/mon" . || { echo "check.sh: build failed" >&2; exit 2; }
"$bin/mon" run "$id" "$@"
exit $?
