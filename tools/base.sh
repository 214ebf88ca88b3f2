#!/bin/bash
# Build /repo and run its tests; report baseline regressions.
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json) > /tmp/t.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print(len(b['stable']),'stable;',len(m),'broken',m[:5])
P
