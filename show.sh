#!/bin/bash
for f in /verif/replays/${1:-}*.json; do /opt/venv/bin/python - $f <<'E'
import json,sys
d=json.load(open(sys.argv[1]));print(sys.argv[1],d['config'],d['seed'],d['kind']);print('  M',d['message'][:1200]); print('\n'.join('  '+x[:400] for x in d['trace'][-7:]))
E
done
