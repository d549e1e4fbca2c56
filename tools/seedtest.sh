#!/bin/bash
# seedtest.sh ID...: confirms planted changes against /repo (applied and undone) and runs their own check
cd /repo; R=/tmp/seedtest.out
for i in "$@"; do
  D=/verif/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -n "$(git status --porcelain)" ] && { echo dirty; exit 2; }
  bash $D/demo.sh >/tmp/d0.log 2>&1; c=$?
  git apply $D/patch.diff || { echo "$i does not apply"; continue; }
  bash $D/demo.sh >/tmp/d1.log 2>&1; b=$?
  bash /opt/vp/build.sh >/tmp/b.log 2>&1; bb=$?
  bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/t.json'))
print(len(b & set(r.get('passed',[]))))" 2>&1)
  s=$SECONDS; o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash check.sh $P 2>&1); k=$?
  git checkout -q -- .
  echo "$i $P clean=$c bug=$b build=$bb tests=$t check=$k ($((SECONDS-s))s) $(echo "$o" | grep -o 'VIOLATION.*' | head -1) | $(tail -1 /tmp/d1.log | cut -c1-150)" | tee -a $R
done
