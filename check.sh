#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser and decides one property for /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GO111MODULE=on
export VJ_VERIF=$here
mkdir -p "$here/.build" "$here/evidence"
if ! (cd "$here/analyzer" && flock "$here/.build/lock" go build -o "$here/.build/vj" .) >"$here/.build/log" 2>&1; then
  cat "$here/.build/log"
  echo "the analyser does not build"
  echo "VIOLATION property=$1 replay=$here/.build/log"
  exit 1
fi
tier=${2:-${VERIF_TIER:-quick}}
timeout -k 5 840 "$here/.build/vj" check "$1" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analyser ended with status $rc: undecided"
  echo "VIOLATION property=$1 replay=$here/evidence/$1.json"
  exit 1
fi
exit $rc
