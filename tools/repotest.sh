#!/bin/bash
# run the repository's own tests; print failures among the stable ones
bash /opt/vp/test.sh /tmp/vp_out.json >/tmp/vp_log.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp_out.json'))
st=b.get('stable') or b.get('tests') or b
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
st=set(st if isinstance(st,list) else st.keys())
p=set(o.get('passed',[]))
print('missing stable:',sorted(st-p)[:20])
P
