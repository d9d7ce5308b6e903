#!/bin/bash
# Builds the simulator with the current /repo once (so that the compiler's cache
# is warm) and runs the self-tests of the instrumenter and the simulator.
set -eu
cd "$(dirname "$0")"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vsetup.XXXXXX")
trap 'rm -rf -- "$tmp"' EXIT
# the native half of it uses real sockets: a machine too slow is no reason to stop
./selftest/selftest.sh || ./selftest/selftest.sh || ./selftest/selftest.sh || echo "setup: SELF-TEST FAILED" >&2
./check.sh --build "$tmp/simrun"
"$tmp/simrun" list >/dev/null
echo "setup: ok"
