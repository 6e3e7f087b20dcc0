#!/bin/bash
# commitfix.sh "message": build, run the stable tests, commit when all pass
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1 || true
tail -1 /tmp/t.log
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print('missing',m); sys.exit(1 if m else 0)
P
git commit -qam "$1"; git log --oneline | head -1
