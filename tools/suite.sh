#!/bin/bash
# Rebuilds /repo and runs its stable tests; prints what fails.
bash /opt/vp/build.sh >/tmp/suite_build.log 2>&1 || { tail -20 /tmp/suite_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/suite_out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/suite_out.json'))['passed']
bad=[t for t in b if t not in o]; print("stable %d, failing %d"%(len(b),len(bad)), bad[:10]); sys.exit(bool(bad))
P
