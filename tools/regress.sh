#!/bin/bash
# Runs the repository's tests and compares with the baseline list of stable tests.
bash /opt/vp/build.sh >/tmp/regress-build.log 2>&1 || { echo BUILD FAILED; exit 1; }
O=$(mktemp /tmp/res.XXXX.json)
bash /opt/vp/test.sh $O >/tmp/regress.log 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open(sys.argv[1]))
st=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b
p=set(r['passed']);m=[x for x in st if x not in p]
print('stable',len(st),'missing',len(m),m[:10])
P
rm -f $O
