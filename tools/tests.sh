#!/bin/bash
# rebuild /repo (or $1's build) and compare with the baseline
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/vp-out.json'))
st=b['stable'] if isinstance(b['stable'],list) else list(b['stable'])
bad=[t for t in st if t not in o['passed']]
print('stable passing', len(st)-len(bad), 'of', len(st), bad)
raise SystemExit(1 if bad else 0)
P
