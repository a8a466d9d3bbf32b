#!/bin/bash
# reftest.sh FILE [ID...]: apply the behaviour-preserving edits of tools/refactors/FILE.py in scratch copies and run the checks, which must stay quiet
f=$1; shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
for id in $(python3 -c "
import sys; sys.path.insert(0,'/verif/tools/refactors'); m=__import__('$f')
print(*[s['id'] for s in m.S if not sys.argv[1:] or s['id'] in sys.argv[1:]])" "$@"); do
  W=$(mktemp -d /tmp/refwt.XXXX); rmdir $W; cp -a /repo $W
  P=$(cd $W && python3 - $id <<P
import sys; sys.path.insert(0,'/verif/tools/refactors'); sys.dont_write_bytecode=True
m=__import__('$f')
s=[s for s in m.S if s['id']==sys.argv[1]][0]
for f,o,n in s['edits']:
    t=open(f).read()
    assert t.count(o)==1,(f,t.count(o),o)
    open(f,'w').write(t.replace(o,n))
print(s['props'])
P
) || { echo "$id: EDIT FAILS"; rm -rf $W; continue; }
  (cd $W && go build ./... && go vet ./pkg/monny 2>&1 | grep -v vet: | head -3) || { echo "$id: BUILD FAILS"; rm -rf $W; continue; }
  (cd $W && SHELL=/bin/bash go test -vet=off -count=1 ./... 2>&1 | grep -E '^(FAIL|---)' | head -5)
  for p in ${PROPS:-$P}; do
    REPO=$W /verif/check.py $p quick > $W.chk 2>&1; rc=$?
    echo "$id $p rc=$rc"; [ $rc = 0 ] || grep -v '^  ' $W.chk | cut -c1-300 | head -4
  done
  rm -rf $W $W.chk
done
