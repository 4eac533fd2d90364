#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the verifier if needed and decides one property against /repo.
dir=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
[ -n "$HOME" ] || export HOME=/root
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
if ! [ -x "$dir/gocv/gocv" ] || [ -n "$(find "$dir/gocv" -name '*.go' -newer "$dir/gocv/gocv" -print -quit)" ]; then
	(cd "$dir/gocv" && go build -o gocv .) || exit 2
fi
exec "$dir/gocv/gocv" -check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$dir" -repo "${VERIF_REPO:-/repo}"
