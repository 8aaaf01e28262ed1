#!/bin/bash
# check.sh PNN [--case N]: builds the harness against /repo's working tree and
# runs one check. Environment: VERIF_SEED, VERIF_TIER (quick or thorough).
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd) || exit 3
export VERIF_ROOT
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=${1:?usage: check.sh PNN [--case N]}
work=$(mktemp -d /tmp/xsqlverif.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export VERIF_WORK=$work
mkdir -p "$VERIF_ROOT/evidence"
flags=()
[ "$id" = P23 ] && flags=(-race)
(cd "$VERIF_ROOT/harness" && go build "${flags[@]}" -o "$work/harness" .) || { echo "CHECK-ERROR $id: build failed" >&2; exit 3; }
"$work/harness" "$@"
