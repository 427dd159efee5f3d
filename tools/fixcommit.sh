#!/bin/bash
# usage: fixcommit.sh PID "what failed"  -- commits /repo's working tree as a fix and records it
cd /repo && git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD) && python3 - "$1" "$h" "$2" <<'P'
import json,sys,os
p='/verif/known_findings.json'
d=json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
d['fixed'].append('fixed: property=%s %s %s'%tuple(sys.argv[1:4]))
json.dump(d,open(p,'w'),indent=1)
P
