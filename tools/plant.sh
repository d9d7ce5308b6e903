#!/bin/bash
# usage: plant.sh DIR [PROP...]   tries out a planted bug in a scratch copy of /repo:
# builds, stable tests, demo without and with the patch, then the checks (default: its own property)
set -u
dir=$(cd "$1" && pwd); shift
here=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
w=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/demo"; cp -a "$dir/." "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
prop=$(python3 -c "import json,sys;print(json.load(open('$dir/meta.json'))['property'])")
[ $# -eq 0 ] && set -- $prop
cd "$w/repo"
(timeout 300 bash "$w/demo/demo.sh") >"$w/clean.log" 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "DOES NOT BUILD"; exit 1; }
(timeout 300 bash "$w/demo/demo.sh") >"$w/bug.log" 2>&1; b=$?
[ $a -eq 0 ] && [ $b -ne 0 ] && d=ok || { d="BAD(clean=$a bug=$b)"; tail -5 "$w/clean.log"; echo ---; tail -5 "$w/bug.log"; }
t=skipped
if [ -z "${NOTEST:-}" ]; then
  sed "s|/repo|$w/repo|g" /opt/vp/test.sh >"$w/test.sh"; bash "$w/test.sh" "$w/t.json" >/dev/null 2>&1
  t=$(python3 - "$w/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
want=b.get('passed') or b.get('tests') or b.get('stable') or []
miss=[x for x in want if x not in t['passed']]
print('pass' if not miss else 'FAIL:'+','.join(m.split('/')[-1] for m in miss))
P
)
fi
r=
for p in "$@"; do
  o=$(SIM_REPO=$w/repo SIM_BUDGET=${SIM_BUDGET:-200s} "$here/check.sh" $p quick 2>&1); c=$?
  r="$r $p:rc=$c:$(echo "$o" | grep -v '^ ' | grep "^$p:" | head -1 | cut -c1-${WIDE:-110})[$(echo "$o" | tail -1 | grep -o 'quick: [0-9]* runs')]"
done
echo "$(basename $dir) [$prop] demo=$d tests=$t$r"
