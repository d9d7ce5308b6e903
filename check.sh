#!/bin/bash
# usage: check.sh <property> [quick|thorough]     run the check of one property
#        check.sh --replay FILE                   replay a recorded violation
#        check.sh --one <property> SEED INDEX     show one simulated run
# SIM_REPO=DIR uses another tree than /repo (for trying out changes; evidence and
# replays then go to SIM_OUT).  SIM_RUNS and SIM_BUDGET bound a run.
# Exit 0: held on everything explored; 1: violation; anything else: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH && break
done
export PATH GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=0
export TZ=UTC
unset GODEBUG GOEXPERIMENT GOTRACEBACK GOMAXPROCS GOGC 2>/dev/null
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf -- "$tmp"' EXIT
trap 'exit 2' INT TERM
build() {
  cd "$here/sim" || exit 2
  if [ -n "${SIM_REPO:-}" ]; then
    sed "s|=> /repo$|=> $SIM_REPO|" go.mod >"$tmp/go.mod" || exit 2
    export GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
  fi
  if ! go run ./cmd/instr -out "$tmp/inst" >"$tmp/log" 2>&1; then
    echo "check.sh: instrumenting /repo failed" >&2; cat "$tmp/log" >&2; exit 2
  fi
  if ! go build -overlay "$tmp/inst/overlay.json" -o "$tmp/simrun" ./cmd/simrun >"$tmp/log" 2>&1; then
    echo "check.sh: building the simulator with /repo failed" >&2; cat "$tmp/log" >&2; exit 2
  fi
  cd "$here" || exit 2
}
case "${1:-}" in
--replay)
  f=$(readlink -f -- "$2") || exit 2
  build; "$tmp/simrun" replay "$f"; exit $? ;;
--one)
  build; "$tmp/simrun" one -prop "$2" -seed "$3" -i "$4"; exit $? ;;
--build)
  build; cp "$tmp/simrun" "$2"; exit $? ;;
C*) ;;
*) sed -n 2,6p "$0"; exit 2 ;;
esac
prop=$1
out=$here/evidence rep=$here/replays
if [ -n "${SIM_REPO:-}" ]; then out=${SIM_OUT:-$tmp} rep=${SIM_OUT:-$tmp}; fi
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
build
"$tmp/simrun" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$out/$prop.json" \
  -replays "$rep" -known "$here/known_findings.jsonl" ${SIM_RUNS:+-runs $SIM_RUNS} ${SIM_BUDGET:+-budget $SIM_BUDGET}
exit $?
