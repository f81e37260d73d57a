#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts behind one property on /repo's
# current source and run its replay driver.
set -u
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/gv.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/govc" && go build -o "$work/govc" .) >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 2; }
(cd "$here/drivers" && go build -o "$work/drivers" .) >"$work/build2.log" 2>&1 || { cat "$work/build2.log" >&2; exit 2; }
export TMPDIR="$work"
"$work/govc" check -p "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$here" -driver "$work/drivers"
exit $?
