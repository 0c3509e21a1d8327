import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p)); c=d['coverage']
    print(p,d['wall_s'],'s')
    for k,v in c['arms'].items(): print('  ',k,v['cases'],'nontriv',v['nontrivial'],'disc',v['discarded'],'skipped',v['not_run_time_cap'],v['labels'])
    for n in c.get('notes',[]): print('  NOTE',n[:300])
