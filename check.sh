#!/bin/bash
# check.sh ID TIER: rebuild the driver against /repo's working tree and explore one property
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
export VERIF_ROOT="$PWD"
mkdir -p .bin evidence
if ! go build -o .bin/mc ./cmd/mc 2>.bin/build.log; then
  cat .bin/build.log >&2
  exit 2
fi
exec .bin/mc run "$1" "$2"
