#!/bin/sh
# Distinct failures of a property: tools/kinds.sh P05 [scale]   (runs everything, stops at nothing)
cd "$(dirname "$0")/.." && DST_NOSTOP=1 python3 check.py "$1" --no-minimise --scale "${2:-1}" ${3:+--seed $3} 2>&1 | cut -c1-700
