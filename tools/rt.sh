#!/bin/bash
# developer loop: rebuild the repository, run its stable tests, list the ones that no longer pass
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { grep -E "^error" -A12 /tmp/build.log | head -60; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def passed(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return d[k]
    raise SystemExit(f"keys {list(d)}")
B=set(passed(b)); T=set(passed(t))
print("missing:", sorted(B-T), "passed", len(T))
P
