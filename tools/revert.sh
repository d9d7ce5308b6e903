#!/bin/bash
# usage: revert.sh COMMIT PROP...   undo one fix in a scratch copy and run checks on it
c=$1; shift
d=$(mktemp -d /tmp/rv.XXXXXX); cp -a /repo "$d/repo"
if ! git -C "$d/repo" revert -n "$c" >/dev/null 2>&1; then echo "$c: revert conflicts"; rm -rf -- "$d"; exit; fi
for p in "$@"; do echo "$c $p: $(SIM_REPO=$d/repo SIM_BUDGET=120s "$(dirname "$0")/../check.sh" "$p" 2>&1 | grep -v '^ ' | cut -c1-160 | tail -3 | head -1)"; done
rm -rf -- "$d"
