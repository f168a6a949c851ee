#!/bin/bash
# seed.sh ID [prop...]: verifies seeded/<ID> using scratch copy /tmp/m
id=$1; shift
. /opt/vp/env.sh
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
rm -rf /tmp/m; cp -a /repo /tmp/m; cd /tmp/m; git checkout -q -- . 
cp -r $d /tmp/seeddemo.$$; rm -f /tmp/seeddemo.$$/patch.diff /tmp/seeddemo.$$/meta.json
(bash /tmp/seeddemo.$$/demo.sh > /tmp/demo.clean.log 2>&1); echo "demo clean exit $?"
git apply $d/patch.diff || { echo APPLY FAILED; exit 1; }
go build ./... > /tmp/seed.build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seed.build.log; }
(bash /tmp/seeddemo.$$/demo.sh > /tmp/demo.bug.log 2>&1); echo "demo bug exit $?"
tail -5 /tmp/demo.bug.log
rm -rf /tmp/seeddemo.$$
if [ -z "$NOTEST" ]; then
go test -vet=off ./pkg/... 2>&1 | grep -v "no test files" | grep -v "^ok" | tail -8
fi
for q in $p "$@"; do
  t0=$(date +%s)
  /tmp/eng -prop $q -tier quick -repo /tmp/m -verif /verif -noevidence > /tmp/seed.out 2>&1; echo "check $q exit $? in $(( $(date +%s)-t0 ))s"
  grep -E "violated|VIOLATION" /tmp/seed.out | head -4
done
