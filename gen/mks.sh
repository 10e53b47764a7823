#!/bin/bash
# mks.sh <ids>: mkseed.sh for each, in brief
for i in "$@"; do
  o=$(bash /verif/gen/mkseed.sh $i 2>&1)
  if echo "$o" | grep -q "clean demo ok" && echo "$o" | grep -q "(good)" && echo "$o" | grep -q "41 passed"; then echo "$i ok"
  else echo "$i BAD"; echo "$o" | grep -v "^ \|^\.\|passed" | tail -4 | cut -c1-200; fi
done
