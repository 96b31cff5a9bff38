#!/bin/bash
# Warms the build cache and checks that the tools the checks use are present.
cd "$(dirname "$0")" || exit 2
for t in go strace; do command -v $t > /dev/null || { echo "missing $t"; exit 1; }; done
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go
(cd /repo && go build -o /dev/null ./cmd/btrfscue) || exit 1
echo ready
