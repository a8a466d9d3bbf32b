#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy and run their check against it
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
for id in "$@"; do
  D=/verif/seeded/$id; W=$(mktemp -d /tmp/seedwt.XXXX); rmdir $W
  cp -a /repo $W; cd $W
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  r="$id $P:"
  bash $D/demo.sh > $W.log 2>&1 && r="$r demo-clean=ok" || r="$r DEMO-FAILS-ON-CLEAN"
  git apply $D/patch.diff || r="$r PATCH-FAILS"
  go build ./... > /dev/null 2>$W.log || r="$r BUILD-FAILS"
  if [ -z "$NOTEST" ]; then
  go test -json -vet=off -count=1 -timeout 5m $(go list -e ./... | grep -vx 'github.com/BTBurke/monny/pkg/monny') > $W.json 2>/dev/null < /dev/null
  python3 /opt/vp/results.py $W.out gojson:$W.json >/dev/null
  r="$r $(python3 - $W.out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set(x)
s=passed(b)-passed(o)
print('tests=ok' if not s else 'TESTS-FAIL:%s'%sorted(s)[:4])
P
)"
  fi
  bash $D/demo.sh > $W.log 2>&1 && r="$r DEMO-PASSES-WITH-PATCH" || r="$r demo-patched=fails"
  cd /verif
  REPO=$W ./check.py $P quick > $W.chk 2>&1; rc=$?
  [ $rc = 1 ] && grep -q "VIOLATION property=$P" $W.chk && r="$r CAUGHT" || r="$r MISSED(rc=$rc)"
  echo "$r"; grep -h -m2 -v '^ ' $W.chk | cut -c1-220
  rm -rf $W $W.log $W.json $W.out $W.chk
done
