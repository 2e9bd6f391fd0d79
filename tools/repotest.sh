#!/bin/bash
# rebuilds /repo and compares its test results with the baseline
bash /opt/vp/build.sh >/tmp/repotest.build 2>&1 || { tail -5 /tmp/repotest.build; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/repotest.json'))['passed'])
print("stable %d, lost: %s" % (len(b), sorted(b-t)))
P
