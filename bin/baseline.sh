#!/bin/bash
# build /repo, run its tests, compare with the stable list
bash /opt/vp/build.sh >/tmp/baseline_build.log 2>&1 || { tail -30 /tmp/baseline_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/baseline_out.json >/tmp/baseline_test.log 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/baseline_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print('passed',len(o['passed']),'failed',len(o['failed']),'missing stable',sorted(m)); sys.exit(bool(m))
P
