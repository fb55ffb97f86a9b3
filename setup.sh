#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p "$D/bin" "$D/evidence" "$D/replays"
cd "$D/engine" && go build -o "$D/bin/ve" .
