#!/bin/sh
# rebuild /repo and confirm that its stable tests still pass
bash /opt/vp/build.sh >/tmp/vf-b.log 2>&1; bash /opt/vp/test.sh /tmp/vf-t.json >/tmp/vf-tt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/vf-t.json')); p=set(t['passed'])
print('stable', len(b), 'now passing', len(p & b), 'missing', sorted(b-p)[:5])
P
git -C /repo status --short | head -3
