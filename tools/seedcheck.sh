#!/bin/bash
# seedcheck.sh <id>...: validates planted bugs in scratch copies under /tmp (build, stable tests, demo both ways).
# -f: skip the full test suite. Then runs the property's check on the patched copy.
FAST=0; [ "$1" = -f ] && { FAST=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
one(){ id=$1; W=/tmp/seedw.$id; rm -rf "$W"; mkdir -p $W/repo $W/vp
 git -C /repo archive HEAD | tar -x -C $W/repo
 (cd $W/repo && bash $V/seeded/$id/demo.sh >$W/demo0.log 2>&1); d0=$?
 (cd $W/repo && git init -q . 2>/dev/null; git -C $W/repo apply --unsafe-paths $V/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; return; }
 rm -rf $W/repo/.git
 (cd $W/repo && bash $V/seeded/$id/demo.sh >$W/demo1.log 2>&1); d1=$?
 t=skipped
 if [ $FAST = 0 ]; then
  cp -r /opt/vp/. $W/vp/; sed -i "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" $W/vp/*.sh $W/vp/cmake/CMakeLists.txt
  bash $W/vp/test.sh $W/out.json >$W/test.log 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$W/out.json'))['passed']);print('tests-ok' if b<=p else 'TESTS-FAIL %d: %s'%(len(b-p),sorted(b-p)[:3]))")
 fi
 p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
 c=$(cd $V && VERIF_REPO=$W/repo python3 checks/run.py $p quick 2>&1 >$W/check.log; echo $?)
 r=$(grep -c '^VIOLATION' $W/check.log)
 echo "$id: $p demo clean=$d0 patched=$d1 $t check-rc=$c violations=$r $(grep -m1 '^  \[' $W/check.log | cut -c1-150)"
 rm -rf /tmp/seedw.$id/repo/_build
}
for i in "$@"; do one $i; done
