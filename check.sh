#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Rebuilds the monitors against /repo's current working tree and runs one property.
cd "$(dirname "$0")" || exit 3
root=$PWD
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
bin=$(mktemp -d) || exit 3
trap 'rm -rf "$bin"' EXIT
flags=()
case "$id" in
  S12|S29|S35|R02|R06|R07) flags=(-race) ;;
esac
if ! (cd harness && go build "${flags[@]}" -o "$bin/vmon" ./cmd/vmon); then
  echo "build of the monitors against /repo failed" >&2
  exit 3
fi
"$bin/vmon" run "$root" "$id" "$tier" "$seed"
