#!/bin/bash
# builds the driver once so that the first check starts with a warm build cache
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p .bin evidence
go build -o .bin/mc ./cmd/mc
