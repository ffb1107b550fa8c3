bash /opt/vp/build.sh || echo BUILDFAIL
bash /opt/vp/test.sh /tmp/x/out.json > /tmp/x/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/x/out.json'))
k=list(o.keys()); 
ps=set(o.get('passed',[])) if 'passed' in o else {x for x,v in o.items() if v=='passed'}
print(k[:5], len(ps), "missing:", [x for x in b if x not in ps])
P
