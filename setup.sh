#!/bin/bash
# Warms the build cache; every check builds the analyser itself.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GO111MODULE=on
mkdir -p "$here/.build"
cd "$here/analyzer" && go build -o "$here/.build/vj" .
