#!/bin/bash
# Compares the repository's tests with the baseline (developer aid; no check uses it).
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print("missing stable:", sorted(set(b['stable'])-set(o['passed'])), "failed:", o['failed'][:5])
P
rm -f /tmp/o.json
