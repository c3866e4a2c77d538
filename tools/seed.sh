#!/bin/bash
# seed.sh ID [nocheck]: validate seeded/ID against /repo: demo passes clean, fails patched, baseline suite passes patched, and run its check
# (leaves /repo as committed)
S=/verif/seeded/$1; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
restore(){ git -C /repo checkout -q -- .; }
trap restore EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo build0 fails; exit 2; }
bash $S/demo.sh >/tmp/seed_demo0.log 2>&1; D0=$?
git apply $S/patch.diff || { echo "no apply"; exit 2; }
# changed lines must be of the base commit
git diff -U0 | python3 - <<'PY'
import sys
PY
python3 /verif/tools/seedblame.py
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo build1 fails; exit 2; }
bash $S/demo.sh >/tmp/seed_demo1.log 2>&1; D1=$?
T=skipped
if [ "$2" != notest ]; then T=$(bash /verif/tools/regress.sh 2>&1 | tail -1); fi
C=-; if [ "$2" != nocheck ]; then VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 /verif/check.py $P >/tmp/seed_check.log 2>&1; C=$?; grep -a VIOLATION /tmp/seed_check.log | head -2 | cut -c1-220; fi
echo "$1 prop=$P demo clean=$D0 patched=$D1 suite=[$T] check=$C"
