#!/bin/bash
# builds the symbolic executor; fetches nothing
set -eu
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p .bin
(cd gosym && go build -o ../.bin/gosym .)
z3-new --version || z3 --version
