#!/bin/bash
# seedtest.sh ID...: demo on the clean tree, then patch, build, stable tests, demo, this property's check; undo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  if [ -z "$SKIPCLEAN" ]; then bash $d/demo.sh >/tmp/dc.log 2>&1; c=$?; else c=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=-
  if [ -z "$SKIPTEST" ]; then
    bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id: build fails"; git checkout -q -- .; continue; }
    bash /opt/vp/test.sh /tmp/o.json
    t=$(python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print([x for x in b['stable'] if x not in o['passed']])")
  fi
  bash $d/demo.sh >/tmp/dp.log 2>&1; p=$?
  cd /verif; VERIF_SEED=1 SIM_VERIF=/verif ./run.sh $prop > /tmp/chk.log 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id [$prop]: demo clean=$c patched=$p tests missing=$t check=$k $(grep -B1 VIOLATION /tmp/chk.log | head -1 | cut -c1-150)"
done
