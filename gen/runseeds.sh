#!/bin/bash
# runseeds.sh [ids]: apply each seeded change to a scratch copy and run its property's check against it
cd /verif
for d in seeded/${1:-*}; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=/tmp/rs-$id-$$; cp -a ${R:-/repo} $W; (cd $W && git apply /verif/$d/patch.diff)
  KERI_REPO=$W /opt/venv/bin/python -B bin/check.py $prop >/tmp/rs-$id.out 2>&1; rc=$?
  echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/rs-$id.out)  $(head -1 /tmp/rs-$id.out | cut -c1-110)"
  rm -rf "$W"
done
