"""compare a test result with the baseline: which stable tests fail"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('stable','pass','passed','tests'):
        if isinstance(d,dict) and k in d:
            v=d[k]
            return set(v) if isinstance(v,list) else {n for n,s in v.items() if s in('pass','passed',True)}
    return None
sb,st=passed(b),passed(t)
print(len(sb),len(st),'missing',sorted(sb-st)[:10])
sys.exit(1 if sb-st else 0)
