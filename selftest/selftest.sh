#!/bin/bash
# Self-test of the instrumenter and the simulator: programs that say the same
# under every schedule must say it simulated; every needle must be found.
set -eu
cd "$(dirname "$0")"
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH && break
done
export PATH GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 TZ=UTC
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vself.XXXXXX")
trap 'rm -rf -- "$tmp"' EXIT
go build -o "$tmp/native" ./run
mkdir "$tmp/d"
timeout 60 "$tmp/native" native "$tmp/d" >"$tmp/out"
go run verif.local/sim/cmd/instr -mod verif.local/conf -out "$tmp/inst"
go build -overlay "$tmp/inst/overlay.json" -o "$tmp/sim" ./run
timeout 300 "$tmp/sim" sim "$tmp/out"
