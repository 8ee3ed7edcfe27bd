#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's working tree.
# check.sh --replay FILE: replay a recorded violation on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
B=$(mktemp -d "${TMPDIR:-/tmp}/gtdrv-XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
(cd sim && go build -o "$B/driver" ./cmd/driver) || exit 2
if [ "$1" = --replay ]; then
	"$B/driver" -verif "$V" -repo "${VERIF_REPO:-/repo}" -replay "$2"
	exit $?
fi
"$B/driver" -verif "$V" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ${VERIF_RUNS:+-runs "$VERIF_RUNS"}
exit $?
