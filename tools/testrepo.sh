#!/bin/bash
# run the stable tests of /repo and report which baseline-stable ones are missing
O=$(mktemp); bash /opt/vp/test.sh $O > /dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
m=[t for t in b if t not in o]; print('stable',len(b),'missing',len(m),m[:8])
P
rm -f "$O"
