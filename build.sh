#!/bin/bash
# Builds the harness into .build (ignored by git).
set -u
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
mkdir -p .build
exec 9>.build/lock; flock 9
(cd harness && go build -o ../.build/vrun ./cmd/vrun && CGO_ENABLED=0 go build -o ../.build/fakeprotoc ./cmd/fakeprotoc)
