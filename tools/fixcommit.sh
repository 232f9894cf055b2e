#!/bin/bash
# build, run the stable tests, commit /repo with the given message
cd /repo || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -E "^error" -A12 /tmp/b.log | head -60; exit 1; }
grep -E "^warning" -A6 /tmp/b.log | grep -v "err.rs" | grep -A6 -E "facet-(reflect|core|json|msgpack|toml|yaml|urlencoded|args|pretty)/src" | head -20
bash /opt/vp/test.sh /tmp/o.json
python3 - <<'P' || exit 1
import json,sys
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('missing',miss); sys.exit(bool(miss))
P
git commit -qam "$1" && git log --oneline | head -1
