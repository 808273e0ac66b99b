#!/bin/bash
# check.sh <property>: decide one property on /repo's current source.
# Exit 0: holds. Exit 1 with a VIOLATION line: broken.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
( cd "$here/tool/govc" && go build -o "$tmp/govc" . ) || exit 2
"$tmp/govc" check -root "$here" -prop "$1"
