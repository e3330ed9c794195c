#!/bin/bash
# Builds the checker once (fills the Go build cache) and loads /repo with it.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off
mkdir -p bin evidence
(cd checker && GOFLAGS=-mod=mod go vet . && GOFLAGS=-mod=mod go build -o ../bin/checker .)
