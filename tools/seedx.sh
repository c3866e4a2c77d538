#!/bin/bash
# seedx.sh COPY ID [nocheck|notest]...: validate seeded/ID in the scratch copy COPY of /repo (created when missing):
# demo passes clean, fails patched, the stable tests pass patched, and run the property's check on it.
K=$1; ID=$2; shift 2; OPT=" $* "; S=/verif/seeded/$ID; L=/tmp/seedx.$(basename $K).$ID
if [ ! -d $K ]; then git clone -q /repo $K; cp /repo/.git/info/exclude $K/.git/info/exclude; fi
git -C $K checkout -q -- . ; git -C $K pull -q 2>/dev/null
sed "s#R=/repo B=/repo/_build#R=$K B=$K/_build#" /opt/vp/build.sh > $K/.git/build.sh
sed "s#R=/repo B=/repo/_build T=/repo/_build#R=$K B=$K/_build T=$K/_build#;s#/opt/vp/build.sh#$K/.git/build.sh#" /opt/vp/test.sh > $K/.git/test.sh
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
trap 'git -C $K checkout -q -- .' EXIT
bash $K/.git/build.sh >$L.build 2>&1 || { echo build0 fails; exit 2; }
(cd $K; bash $S/demo.sh >$L.demo0 2>&1); D0=$?
git -C $K apply $S/patch.diff || { echo "no apply"; exit 2; }
bash $K/.git/build.sh >$L.build 2>&1 || { echo "$ID build1 fails"; exit 2; }
(cd $K; bash $S/demo.sh >$L.demo1 2>&1); D1=$?
T=skipped
if [ "${OPT/ notest /}" = "$OPT" ]; then bash $K/.git/test.sh $L.json >$L.test 2>&1; T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('$L.json'));p=set(r['passed']);m=[x for x in b if x not in p];print('missing',len(m),m[:5])"); fi
C=-; if [ "${OPT/ nocheck /}" = "$OPT" ]; then VERIF_REPO=$K VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 /verif/check.py $P >$L.check 2>&1; C=$?; grep -a VIOLATION $L.check | head -2 | cut -c1-220; fi
echo "$ID prop=$P demo clean=$D0 patched=$D1 suite=[$T] check=$C"
