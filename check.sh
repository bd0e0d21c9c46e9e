#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh --replay FILE
# Builds the symbolic engine from /verif/gosym and decides PROPERTY on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
bin=$(mktemp -d /tmp/verifbin.XXXXXX)
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/gosym" && go build -o "$bin/gosym" .) >&2; then
  echo "ERROR: the engine does not build"; exit 2
fi
if [ "${1:-}" = "--setup" ]; then echo "the engine builds"; exit 0; fi
if [ "${1:-}" = "--replay" ]; then
  "$bin/gosym" -repo /repo -verif "$here" -replay "$2"; exit $?
fi
"$bin/gosym" -repo /repo -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
