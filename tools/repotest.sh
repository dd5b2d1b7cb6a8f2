#!/bin/bash
# Runs the repository's tests and compares with the baseline's stable list.
bash /opt/vp/build.sh >/dev/null || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/vp-out.json >/tmp/vp-out.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp-out.json'))
def passed(d):
    for k in ('passed','stable','stable_passed','pass'):
        if k in d: return set(d[k])
    raise SystemExit(list(d))
print("missing:", sorted(passed(b)-passed(o)), "passed:", len(passed(o)))
PY
