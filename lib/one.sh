#!/bin/bash
# Shows the native replay of the first violation: lib/one.sh ID LABEL-SUBSTRING
cd "$(dirname "$0")/.."; ./check.py $1 --only "$2" 2>&1 | grep -v "^  inputs" | tail -6
python3 - $1 <<'E2'
import glob,json,os,sys
f=sorted(glob.glob('build/replays/%s/*.json'%sys.argv[1]),key=os.path.getmtime)[-1]; d=json.load(open(f)); print(f, d['msg'], d['backtrace'][-900:], str(d['replay'])[-1200:])
E2
