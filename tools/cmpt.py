# developer helper: compare a test.sh result with the recorded baseline
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
print(type(b), list(b)[:5] if isinstance(b,dict) else b[:2]); print(list(t)[:5] if isinstance(t,dict) else t[:2])
