import json,sys
d=json.load(open(sys.argv[1]))
print('  ',d['wall_s'],'s evals',d['evaluations'],'distinct',d['distinct_nontrivial'],'missing',d['missing_events'],'errors',d['harness_errors'][:3])
seen={}
for b in d['broken']: seen.setdefault(b['sig'],[]).append(b)
for k,v in seen.items(): print('   ',len(v),v[0]['job'],v[0]['index'],k,':',v[0]['detail'][:260])
