#!/bin/sh
# build + stable tests of /repo
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -5 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def names(d):
    for k in ('stable','passed','tests','stable_tests'):
        if isinstance(d.get(k),list): return set(d[k])
    print(d.keys())
    return set()
print('baseline',len(names(b)),'missing',sorted(names(b)-names(r))[:5])
P
