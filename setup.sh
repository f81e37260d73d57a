#!/bin/bash
# Build the verifier and the drivers once, to show that they build offline.
set -eu
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/gvsetup.XXXXXX)
trap 'rm -rf "$work"' EXIT
(cd "$here/govc" && go build -o "$work/govc" .)
(cd "$here/drivers" && go build -o "$work/drivers" .)
echo setup ok
