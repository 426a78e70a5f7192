#!/bin/bash
# tools/catch.sh [SEED...]: apply each planted bug to a scratch copy of /repo,
# run its property's quick check (from a scratch copy of /verif) against it,
# and print whether the check reported it.
cd "$(dirname "$0")/.." || exit 1
w=/tmp/catch_$$
mkdir -p $w && cp -a /repo $w/repo && mkdir $w/verif
cp -a mc run.sh known_findings.json $w/verif/
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $w/repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  out=$(MC_REPO=$w/repo timeout 900 $w/verif/run.sh "$p" quick 2>&1); rc=$?
  git -C $w/repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=caught; else r=MISSED; fi
  echo "$s $p $r rc=$rc $(grep -c ^VIOLATION <<<"$out") $(grep -o 'wall=[0-9.]*s' <<<"$out")"
done
rm -rf "/tmp/catch_$$"
