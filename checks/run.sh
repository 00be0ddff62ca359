#!/bin/bash
# usage: run.sh <property> [govc flags]   — decides one property against /repo's working tree
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")/.." && pwd)
p=$1; shift
bin=$here/bin/govc
if [ ! -x "$bin" ] || [ -n "$(find "$here/govc" -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/bin"
  (cd "$here/govc" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build govc"; exit 2; }
fi
exec "$bin" -property "$p" -verif "$here" -repo "${VERIF_REPO:-/repo}" "$@"
