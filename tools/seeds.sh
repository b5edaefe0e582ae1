#!/bin/bash
# Usage: tools/seeds.sh ID [seed ...]: run a check under several seeds.
id=$1; shift
for s in ${@:-1 2 3 4}; do
  VERIF_SEED=$s timeout 880 /usr/bin/python3 /verif/check.py $id > /tmp/out-$id-$s.txt 2>&1
  echo "$id seed $s: exit $? $(grep -m1 evaluations /tmp/out-$id-$s.txt)"
  grep -h -m1 -A3 "Violation\|^VIOLATION\|ERROR" /tmp/out-$id-$s.txt | head -c 1500
done
