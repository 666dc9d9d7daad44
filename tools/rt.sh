#!/bin/bash
# runs the repository's stable tests, prints those that no longer pass
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'PY'
import json
a=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("lost:", sorted(set(b['stable'])-set(a['passed'])), "passed", len(a['passed']))
PY
cd /repo && git status --short | head
