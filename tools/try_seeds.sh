#!/bin/bash
# try_seeds.sh [ID...] : runs the property's check against each planted change, on a scratch copy of /repo
cd /verif
for d in ${@:-$(ls seeded)}; do
  m=seeded/$d/meta.json; p=$(python3 -c "import json;print(json.load(open('$m'))['property'])")
  w=$(mktemp -d /tmp/try_XXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$d/patch.diff || echo "$d: PATCH DOES NOT APPLY"
  VERIF_REPO=$w/repo python3 tools/check.py $p > $w/out 2>&1; rc=$?
  echo "$d ($p): rc=$rc $(grep -c no-failing $w/out) nofail; $(grep -m1 'refuted\|failed obl' $w/out | cut -c1-160)"
  rm -rf $w
done
