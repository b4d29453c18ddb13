#!/bin/sh
# Runs one simulated run with its trace: tools/one.sh P05 histories:12
cd "$(dirname "$0")/.." && python3 check.py "$1" --one "$2"
