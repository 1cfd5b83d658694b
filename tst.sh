#!/bin/bash
# builds /repo and runs its stable tests; prints those that no longer pass
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('lost:', sorted(set(b['stable'])-set(t['passed'])))"
git -C /repo status --short
