#!/bin/bash
# Usage: replay.sh PROPERTY [SECONDS] [REPO]: runs the replay program alone.
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$(cd "$(dirname "$0")/.." && pwd)"/replay/*.go "$d"
cat > "$d/go.mod" <<M
module replay

go 1.22.4

require github.com/jschaf/bibtex v0.0.0
require github.com/google/go-cmp v0.6.0 // indirect

replace github.com/jschaf/bibtex => ${3:-/repo}
M
cp "${3:-/repo}/go.sum" "$d"
cd "$d" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o r . && ./r -prop "$1" -secs "${2:-20}"
