#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier and decides PROPERTY on /repo's working tree
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
bash "$here/build_gover.sh" "$work/gover" || exit 3
"$work/gover" -repo /repo -verif "$here" -check "$id" -tier "$tier"
