#!/bin/bash
# Builds /repo and runs its tests; prints the baseline tests that do not pass.
bash /opt/vp/test.sh /tmp/out.$$.json >/dev/null 2>&1
python3 - /tmp/out.$$.json <<'PY'
import json,sys
a=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(a['passed'])
print("passed",len(a['passed']),"missing",sorted(m))
sys.exit(1 if m else 0)
PY
rc=$?
rm -f /tmp/out.$$.json
exit $rc
