#!/bin/bash
# tryseed.sh <id>...: demo on the clean tree, then patch, build, tests, demo, property check; undo.  Development helper.
R=/repo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "clean build failed"
  t=$(mktemp -d); cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
  (cd $R && timeout 300 bash $t/demo.sh >$t/o1 2>&1); c=$?
  git -C $R apply $d/patch.diff || { echo "$id noapply"; continue; }
  bash /opt/vp/test.sh $t/out.json >$t/b 2>&1
  miss=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));k=b.get('stable') or b.get('passed');p=set(json.load(open('$t/out.json'))['passed']);print(len([x for x in k if x not in p]))")
  (cd $R && timeout 300 bash $t/demo.sh >$t/o2 2>&1); m=$?
  python3 /verif/check.py $p >$t/chk 2>&1; k=$?
  git -C $R checkout -q -- .
  echo "$id prop=$p demo-clean=$c demo-bug=$m tests-missing=$miss check=$k $(grep -v '^ ' $t/chk | head -1 | cut -c1-150)"
  [ $c != 0 ] && tail -3 $t/o1
  [ $m = 0 ] && tail -3 $t/o2
  rm -rf $t
done
bash /opt/vp/build.sh >/dev/null 2>&1
