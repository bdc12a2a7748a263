#!/bin/bash
# stable tests of /repo (or $1): prints how many of the baseline fail
cd ${1:-/repo}; bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/w/out.json'))
print('missing:',sorted(set(b['stable'])-set(o['passed']))[:10])
P
