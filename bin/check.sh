#!/bin/bash
# Runs one property check: bin/check.sh PROPERTY, or replays a trace: bin/check.sh replay FILE.
# It builds the simulator and everything it needs of /repo into a scratch folder that is removed at the end.
cd "$(dirname "$0")/.." || exit 2
export VERIF_DIR=${VERIF_DIR:-$PWD}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8 LC_ALL=C.UTF-8 HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim-bin.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
(cd sim && go build -o "$scratch/vsim" .) || exit 2
case $1 in
replay) "$scratch/vsim" replay "$2" ;;
*) "$scratch/vsim" check "$1" ;;
esac
