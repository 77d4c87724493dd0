#!/bin/bash
# fixcommit.sh PROP "message"  : commit /repo's change as a fix and record it
cd /repo && git commit -qam "fix: $2" && h=$(git log --format=%h -1) && python3 - "$1" "$h" "$2" <<'P'
import json,sys
f="/verif/known_findings.json"; d=json.load(open(f)); d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(f,"w"),indent=1)
P
