#!/bin/bash
# build + run stable tests of /repo, report missing
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))['passed']
m=[x for x in b if x not in o]
print("stable",len(b),"missing",m)
P
