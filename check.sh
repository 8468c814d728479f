#!/bin/bash
# check.sh PROPERTY TIER: builds the symbolic executor if it is not there yet, then decides the property
# on /repo's current working tree. check.sh --setup only builds.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
if [ ! -x bin/gosym ] || [ -n "$(find gosym -name '*.go' -newer bin/gosym)" ]; then
	mkdir -p bin
	(cd gosym && go build -o ../bin/gosym.$$ .) && mv bin/gosym.$$ bin/gosym || exit 2
fi
if [ "$1" = --setup ]; then
	# warms the build cache for the native replay
	(cd harness && go build -o /dev/null ./cmd/replay) || true
	exit 0
fi
exec bin/gosym check -root "$PWD" -prop "$1" -tier "${2:-quick}"
