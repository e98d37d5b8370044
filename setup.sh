#!/bin/bash
# Builds the monitors once, so that a broken framework shows here and the checks find a warm build cache.
set -e
cd "$(dirname "$0")/harness"
. ./env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
go vet ./vmon ./instrument >/dev/null 2>&1 || true
go build -o "$d/instrument" ./instrument
go build -o "$d/vmon" ./vmon
go build -race -o "$d/vmon-race" ./vmon
echo ok
