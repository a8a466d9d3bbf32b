import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p))
    print(p,e['tier'],e['wall_s'],'viol',e['violations'])
    for s in e['coverage']['scenarios']:
        print('  %-22s ex %-9d cut %-7s st %-8d out %-6s %6.1fs exh=%s b=%s thr=%s %s %s'%(s['scenario'],s['executions'],s.get('cut'),s['states'],s.get('outcomes'),s['wall'],s.get('exhaustive'),s.get('bound'),s.get('threads'),s.get('known',''),(s.get('error') or '')[:150]))
