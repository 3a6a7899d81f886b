#!/bin/bash
# build + stable tests of /repo's working tree against the baseline list
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [t for t,v in x[k].items() if v in (True,'pass','passed')])
    return set(x)
pb,po=passed(b),passed(o)
print(len(pb),len(po),'missing:',sorted(pb-po)[:10])
P
git -C /repo status --short | head
