#!/bin/bash
# ./check.sh PROP [CASE]: builds the harness and prototool, and decides the property.
set -u
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
export HOME="${HOME:-/root}"
./build.sh || exit 2
exec ./.build/vrun "$@"
