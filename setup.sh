#!/bin/bash
# Builds the monitors, plain and with the race detector, from the committed files.
cd "$(dirname "$0")/harness" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/vmon" ./cmd/vmon && go build -race -o "$bin/vmonr" ./cmd/vmon
