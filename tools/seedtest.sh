#!/bin/bash
# seedtest.sh ID [check]: confirms a planted bug in a scratch copy of /repo (build, tests, demo), and runs its check.
id=$1; prop=$2
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedwork.XXXXXX)
cp -a /repo "$w/repo"
sed "s#/repo#$w/repo#g" /opt/vp/build.sh > "$w/build.sh"
cd "$w/repo" || exit 9
rm -rf "$w/repo/_build"
bash "$w/build.sh" >"$w/log" 2>&1 || { echo "base build failed"; tail -5 "$w/log"; }
bash "$s/demo.sh"; echo "$id demo unchanged: $?"
git apply "$s/patch.diff" || { echo "patch fails"; exit 9; }
bash "$w/build.sh" >"$w/log" 2>&1 || { echo "BUILD FAILS"; tail -20 "$w/log"; }
grep -i 'warning' "$w/log" | head -3
ctest --test-dir "$w/repo/_build" --timeout 60 2>&1 | grep -e 'tests passed' -e Failed
bash "$s/demo.sh"; echo "$id demo patched: $?"
if [ -n "$prop" ]; then
  for p in $prop; do ELMC_REPO=$w/repo timeout 900 python3 /verif/run.py $p >"$w/out" 2>&1; echo "$id check $p: $?"; grep -m3 -e VIOLATION "$w/out" || tail -3 "$w/out"; done
fi
cd /; rm -rf "$w"
