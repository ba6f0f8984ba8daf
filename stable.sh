#!/bin/bash
# developer helper: rebuild /repo and compare with the stable baseline
bash /verif/notag.sh bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /verif/notag.sh bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("passed",len(o['passed']),"stable missing:",sorted(set(b['stable'])-set(o['passed']))[:20])
P
