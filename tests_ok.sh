#!/bin/bash
# dev helper: build + stable tests vs baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/b.log; exit 2; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def lst(x,k):
    v=x.get(k) or []
    return set(v if isinstance(v,list) else v.keys())
ks=[k for k in b]
st=None
for k in ('stable','passed','pass','tests'):
    if k in b: st=set(b[k]); break
op=None
for k in ('passed','pass'):
    if k in o: op=set(o[k]); break
miss=sorted(st-op)
print('stable',len(st),'missing',len(miss),miss[:20])
P
