#!/bin/bash
# usage: check.sh ID quick|thorough     check.sh ID replay SHARD:INDEX
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOWP_REPO="${GOWP_REPO:-/repo}" GOFLAGS= GOPROXY=off
[ -x bin/gowp ] || ./setup.sh >/dev/null || exit 2
if [ "$2" = replay ]; then exec bin/gowp replay "$1" "$3"; fi
exec bin/gowp check "$1" "${2:-quick}"
