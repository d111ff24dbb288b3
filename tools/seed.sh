#!/bin/bash
# seed.sh prep                  make /tmp/sw, a built scratch copy of /repo
# seed.sh test ID [check..]     apply seeded/ID there, build, run the tests, the demo and the checks named
# seed.sh demo0                 every demo on the unpatched scratch copy
V=/verif; W=/tmp/sw
vp() { sed "s#^R=/repo#R=$W#; s#^B=/repo/_build#B=$W/_build#; s#/opt/vp/build.sh#/tmp/sw-build.sh#; s#/opt/vp/results.py#/opt/vp/results.py#" /opt/vp/$1 > /tmp/sw-$1; }
case $1 in
prep) rm -rf /tmp/sw; git clone -q /repo $W; mkdir -p $W/other_libs/{filedb,libintrin,qio,xpath_reader}; vp build.sh; vp test.sh; bash /tmp/sw-build.sh > /tmp/sw-build.log 2>&1; echo "build rc $?";;
demo0) cd $W; git checkout -q -- .; git pull -q; bash /tmp/sw-build.sh > /tmp/sw-build.log 2>&1 || echo build failed
  for d in $V/seeded/*/; do timeout 300 bash $d/demo.sh > /tmp/sw-demo.log 2>&1; rc=$?; echo "$(basename $d) demo0 rc $rc"; done;;
test) id=$2; shift 2; cd $W; git checkout -q -- . ; git pull -q
  git apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; exit 1; }
  (cd $W && bash /tmp/sw-test.sh /tmp/sw-$id.json > /tmp/sw-$id.log 2>&1)
  python3 - /tmp/sw-$id.json $id <<'P'
import json, sys
r = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
want = b if isinstance(b, list) else b['stable']
miss = [t for t in want if t not in r['passed']]
print(sys.argv[2], 'tests:', 'all pass' if not miss else 'MISSING %d: %s' % (len(miss), miss[:3]))
P
  timeout 300 bash $V/seeded/$id/demo.sh > /tmp/sw-demo.log 2>&1; echo "$id demo with patch rc $?"
  for c in $*; do VF_REPO=$W python3 $V/check.py $c --tier quick > /tmp/sw-$id.$c.log 2>&1; echo "$id check $c rc $? $(grep -c . /tmp/sw-$id.$c.log) $(grep VIOLATION /tmp/sw-$id.$c.log)"; done
  git checkout -q -- .;;
esac
