import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
c=d['coverage']; print(c['evaluations'],c['distinct_nontrivial'],d['wall_s'],{k:v['cases'] for k,v in c['labels'].items()})
