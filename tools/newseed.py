#!/usr/bin/env python3
"""newseed.py SPEC.py: make /verif/seeded/<id>/ from a spec (a Python file that
sets id, prop, needs, breaks, edits=[(file, old, new)], pkg, test)."""
import json,os,subprocess,sys,shutil
for spec in sys.argv[1:]:
    g={}
    exec(open(spec).read(),g)
    for s in g['S']:
        if s['test'] is None: continue
        d='/verif/seeded/'+s['id']
        os.makedirs(d,exist_ok=True)
        w='/tmp/seedwt'
        shutil.rmtree(w,ignore_errors=True)
        subprocess.check_call(['cp','-a','/repo',w])
        for f,o,n in s['edits']:
            p=os.path.join(w,f); t=open(p).read()
            assert t.count(o)==1,(s['id'],f,o,t.count(o))
            open(p,'w').write(t.replace(o,n))
        subprocess.call('gofmt -l '+' '.join(set(f for f,_,_ in s['edits'])),shell=True,cwd=w)
        diff=subprocess.check_output(['git','diff'],cwd=w,text=True)
        open(d+'/patch.diff','w').write(diff)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        open(d+'/demo_test.go.txt','w').write(s['test'])
        open(d+'/demo.sh','w').write('''#!/bin/bash
# runs demo_test.go.txt as a test of ./%s through an overlay
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=${HOME:-/root}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$T" > "$T/overlay.json"
timeout 200 go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 150s %s -run 'TestDemo' ./%s
'''%(s['pkg'],s['pkg'],s.get('flags',''),s['pkg']))
        os.chmod(d+'/demo.sh',0o755)
        shutil.rmtree(w)
