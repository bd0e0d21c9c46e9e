#!/bin/bash
# trybug.sh [ID...]: runs the check of each planted bug's property against the bug in a scratch copy of /repo
# (all of them by default; JOBS at a time, 1 by default).
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} VERIF_SEED=1 VERIF_TIER=quick
t=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$t"' EXIT
(cd $here/gosym && go build -o $t/gosym .) || exit 2
export here t
one() {
  id=$1
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  cp -a /repo $t/$id; git -C $t/$id checkout -q -- .
  git -C $t/$id apply $here/seeded/$id/patch.diff || { echo "$id: does not apply"; return; }
  s=$(date +%s)
  out=$(timeout 900 $t/gosym -repo $t/$id -verif $here -prop $p -tier quick 2>/dev/null); rc=$?
  rm -rf $t/$id
  v=$(echo "$out" | grep -c "^VIOLATION property=$p")
  if [ $rc = 1 ] && [ $v -gt 0 ]; then r=CAUGHT; else r="MISSED(rc=$rc)"; fi
  echo "$id $p $r $(($(date +%s)-s))s $(echo "$out" | grep "VIOL " | head -1 | cut -c1-150)"
}
export -f one
printf '%s\n' ${@:-$(ls $here/seeded)} | xargs -P ${JOBS:-1} -I{} bash -c 'one {}'
