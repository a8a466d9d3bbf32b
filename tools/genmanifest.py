#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that has a harness.
import json,os,subprocess
V='/verif'
NA={}
SEQ="exhaustive enumeration of operation sequences and inputs on the real code against a reference model, in the mc runtime"
CON="stateless model checking of the real code: all schedules (source-set DPOR with sleep sets), virtual time and environment choices under a controlled scheduler"
BOTH=CON+"; and exhaustive enumeration of operation sequences against a reference model"
T=dict(C19=SEQ,C20=BOTH,C21=SEQ,C22=SEQ,C23=CON+"; linearizability and race checking of every execution",C24=BOTH,C25=BOTH,C26=SEQ,C27=SEQ,C28=SEQ,C29=BOTH+"; linearizability",C30=BOTH,C31=CON,C34=BOTH,C35=BOTH,C36=BOTH,C37=SEQ,C38=BOTH,C39=BOTH,C40=BOTH,C41=SEQ,C32="exhaustive exploration of the probability space of the random draws: the real generator is run on every sequence of cells, and the probability of each outcome is the sum over the sequences that lead to it",C33="explicit-state probabilistic model checking: the probability of reaching the alarm in the Markov chain of the tested value, whose limits and transitions are extracted from and checked against executions of the real code for every bootstrap and state represented")
NOTE=dict(C33="The chain is a model: its limits and initial values are those of the real statistic after every bootstrap represented, and its steps and alarm condition are compared with the real code on a grid of values and observations in every run; discretisation errors are far below the factors asserted. ",C32="The probability space is divided into cells, each represented by one draw; what the discretisation and the sequences not continued can contribute is within the tolerance. ")
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks,na=[],[]
for p in props:
    i=p['id']
    if os.path.exists(V+'/harness/%s/main.go'%i.lower()):
        checks.append({"property":i,"quick_cmd":"./check.py %s quick"%i,"thorough_cmd":"./check.py %s thorough"%i,
          "technique":T.get(i,CON),"level":"model_checking",
          "level_note":NOTE.get(i,"")+"Every execution explored is an execution of /repo's own code, instrumented at build time, so there is no separate model to drift. Complete within the bounds listed per scenario in DESIGN.md and the evidence file (which says where a bound or the time limit cut the exploration). Trusts the instrumenter, the mc runtime's semantics of goroutines, channels, locks and time, and the environment model (processes, pipes, clock, report server)."})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet")})
hooks={"guard":"none: no hooks are committed in /repo","enable":"build_mc.sh instruments a scratch copy of /repo's working tree; nothing has to be enabled in /repo","source_commits":[]}
json.dump({"version":1,"setup_cmd":"./setup.sh","hooks":hooks,"checks":checks,"not_applicable":na,
 "notes":"Repairs of /repo are the commits whose message starts with fix:, listed in known_findings.json."},open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),'checks')
