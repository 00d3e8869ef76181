#!/bin/bash
# try_seeded.sh <dir of a planted bug> [check args...]: runs demo and check with and without it
# (development aid: applies the patch to /repo and undoes it)
d=$(realpath "$1"); shift
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
tmp=$(mktemp -d /tmp/seeddemo.XXXX); cp "$d"/* "$tmp"/; rm -f "$tmp"/*.diff "$tmp"/meta.json
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
timeout 300 bash "$tmp/demo.sh" > "$tmp/clean.log" 2>&1; c=$?
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
timeout 300 bash "$tmp/demo.sh" > "$tmp/bug.log" 2>&1; b=$?
t=skipped
if [ -z "$NOTEST" ]; then t=$(bash /tmp/x/tst.sh 2>/dev/null | grep -o 'missing: \[[^]]*\]'); fi
s=$(date +%s); (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 checks/$prop.py "$@" > "$tmp/check.log" 2>&1); k=$?
echo "$(basename $d) [$prop] demo clean=$c bug=$b tests=$t check=$k ($(( $(date +%s)-s )) s) $(grep VIOLATION $tmp/check.log | cut -c1-60)"
[ $c = 0 ] || tail -5 "$tmp/clean.log"
[ $b != 0 ] || tail -5 "$tmp/bug.log"
[ $k = 1 ] || tail -5 "$tmp/check.log"
[ -n "$SHOW" ] && tail -8 "$tmp/check.log" | cut -c1-600
rm -rf "$tmp"
