#!/bin/bash
# trybug.sh SEED PROP... : applies a seeded patch to /repo, runs the quick checks, undoes it
d=/verif/seeded/$1; shift
git -C /repo apply $d/patch.diff || exit 9
for p in "$@"; do (cd /verif; timeout 900 python3 vf/check.py $p quick > /tmp/try_$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/try_$p.log)"; grep -E "verus|failed obl|outside" /tmp/try_$p.log | cut -c1-220); done
git -C /repo checkout -q -- .
