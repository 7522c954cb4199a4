#!/usr/bin/env python3
import json,sys
for c in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%c)); v=d['coverage']
    print(c,'wall',d['wall_s'],'eval',v['evaluations'],'nt',v['distinct_nontrivial'],[(s['stage'],s['evaluations'],s['wall_s'],s['unreproducible']) for s in v['stages']],{k:v.get('coverage_guided',{}).get(k) for k in('executions','edges_covered_max','unconfirmed_artifacts')})
    print('   ',v['labels'])
