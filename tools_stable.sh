#!/bin/bash
# run the repository's tests and compare with the stable baseline
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b['stable']); p=set(o['passed'])
m=sorted(st-p)
print("stable",len(st),"missing",len(m), m[:10])
raise SystemExit(1 if m else 0)
PY
