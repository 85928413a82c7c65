#!/bin/bash
# show the newest replay of a check: last.sh P07 [lines]
python3 - "$1" "${2:-40}" <<'P'
import json,glob,os,sys
d=json.load(open(sorted(glob.glob(f'/verif/replays/{sys.argv[1]}-*'),key=os.path.getmtime)[-1]))
print(json.dumps(d['scenario']))
for l in d['trace'][-int(sys.argv[2]):]: print(l[:260])
P
