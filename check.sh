#!/bin/bash
# check.sh build          compile the checker (fills the build cache)
# check.sh <ID>           decide the property <ID> for the working tree in /repo. VERIF_TIER=quick|thorough
# check.sh replay <file>  run one recorded violation again
set -u
cd "$(dirname "$0")" || exit 2
export HOME=/root GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off
export VERIF_DIR="$PWD"
unset HIERA_CONFIGFILE HIERA_DATADIR HIERA_PLUGINDIR
scratch=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM HUP
# The module files are copied so that nothing that go does to them ends up in git
cp mc/go.mod "$scratch/go.mod" && cp mc/go.sum "$scratch/go.sum" || exit 2
(cd mc && go build -modfile="$scratch/go.mod" -o "$scratch/mc" .) || exit 2
[ "${1:-}" = build ] && exit 0
case "${1:-}" in
  replay|count|show) "$scratch/mc" "$@" ;;
  *) "$scratch/mc" check "$@" ;;
esac
