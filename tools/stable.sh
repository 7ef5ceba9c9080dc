#!/bin/bash
# rebuild /repo (or $1 = nothing) and check that the baseline tests pass
bash /opt/vp/build.sh >/tmp/stable.build 2>&1 || { tail -20 /tmp/stable.build; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/stable.json'))
want=set(b.get('passed') or b.get('tests') or b.get('stable') or [])
got=set(r['passed'])
print("stable", len(want), "missing", sorted(want-got)[:10], "failed", r['failed'][:10])
P
