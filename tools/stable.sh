#!/bin/bash
# Builds /repo, runs its tests and says whether the stable ones pass.
bash /opt/vp/build.sh > /tmp/stable-build.log 2>&1 || { tail -20 /tmp/stable-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json > /tmp/stable.log 2>&1
python3 - <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p = set(json.load(open('/tmp/stable.json'))['passed'])
print('stable tests passing:', len(b & p), 'of', len(b), sorted(b - p))
sys.exit(bool(b - p))
P
