#!/bin/bash
# builds the verifier and warms the build cache
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/bin"
(cd "$here/govc" && go build -o "$here/bin/govc" .) || exit 1
(cd /repo && go build ./grpc/federation/... ./resolver/... ./generator/...) || exit 1
exit 0
