#!/bin/bash
# Build /repo and run its tests; prints the stable tests that no longer pass.
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { echo "BUILD FAILED"; tail -30 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_t.json >/tmp/vp_test.log 2>&1
python3 - <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/vp_t.json'))
lost=sorted(b-set(t['passed']))
print('stable',len(b),'lost',lost)
sys.exit(1 if lost else 0)
PY
