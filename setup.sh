#!/bin/bash
# Builds the verifier from the committed sources, offline.
dir=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
cd "$dir/gocv" && go build -o gocv .
