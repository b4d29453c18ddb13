#!/bin/bash
# tools/sweep.sh P05 "1 2 3" [scale]: all violations of several seeds, shortened
for s in $2; do
  DST_NOSTOP=1 timeout 1500 python3 /verif/check.py $1 --seed $s --scale ${3:-1} --no-minimise > /tmp/sweep.$1.$s 2>&1
  echo "== $1 seed $s: $(grep -c '^::' /tmp/sweep.$1.$s) violations, $(grep -c HARNESS /tmp/sweep.$1.$s) harness errors; $(grep -o 'wall=[0-9.]*s' /tmp/sweep.$1.$s | tail -1) $(grep -o 'mismatch=[0-9]*' /tmp/sweep.$1.$s | tail -1)"
  grep '^::' /tmp/sweep.$1.$s | awk '!n[$2 $3]++ || n[$2 $3] < 5' | cut -c1-420 | head -${4:-12}
  grep -A14 HARNESS /tmp/sweep.$1.$s | head -15
done
