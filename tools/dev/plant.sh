#!/bin/bash
# plant.sh ID [slot]: verifies a seed in a scratch copy: builds, tests pass, demo 0 clean / nonzero patched
id=$1; slot=${2:-0}; W=/tmp/pl$slot; S=/verif/seeded/$id
sub() { sed "s#/repo#$W/repo#g; s#/opt/vp/#$W/vp/#g" "$1" > "$2"; }
if [ ! -d $W/repo ] || [ "$(git -C $W/repo rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then
  rm -rf $W; mkdir -p $W/vp; cp -a /repo $W/repo; git -C $W/repo checkout -q -- .; rm -rf $W/repo/_build
  for f in build.sh test.sh run1.sh; do sub /opt/vp/$f $W/vp/$f; done; sed "s#/repo#$W/repo#g" /opt/vp/results.py > $W/vp/results.py
  bash $W/vp/build.sh > $W/b.log 2>&1 || { echo "base build failed"; exit 1; }
fi
rm -rf $W/demo; cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/*.patch $W/demo/meta.json
cd $W/repo; git checkout -q -- .
git apply --check $S/patch.diff || { echo "$id: does not apply"; exit 1; }
bash $W/vp/build.sh > $W/b.log 2>&1
timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; d0=$?
git apply $S/patch.diff
bash $W/vp/build.sh > $W/b1.log 2>&1; b=$?
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; d1=$?
t=-; if [ -z "$NOTEST" ]; then bash $W/vp/test.sh $W/out.json > $W/t.log 2>&1; t=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
ids=b.get('stable') or b.get('passed') or b
ids=[i if isinstance(i,str) else i.get('id') for i in ids]
m=[i for i in ids if i not in o['passed']];print('ok' if not m else 'FAILED '+str(m))"); fi
git checkout -q -- .; bash $W/vp/build.sh > $W/b.log 2>&1
echo "$id: build=$b demo_clean=$d0 demo_patched=$d1 tests=$t"; for f in $W/d0.log $W/d1.log; do tail -n 2 $f; done
