#!/bin/sh
# run the stable tests, print how many of the baseline are lost
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/w/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
k=[x for x in b if isinstance(b[x],list)][0]
print(len(b[k]), len(o['passed']), 'lost', sorted(set(b[k])-set(o['passed']))[:5])
P
