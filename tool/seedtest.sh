#!/bin/bash
# seedtest.sh ID... : development aid. Applies seeded/ID/patch.diff in a scratch copy bound over /repo (own mount namespace), builds, runs the
# tests and the demonstration with and without the patch, and runs the property's check against the patched sources.
V=/verif; S=/tmp/scr
mkdir -p $S; 
for id in "$@"; do
  rsync -a --exclude=_build /repo/ $S/repo/ ; [ -d $S/repo/_build ] || rsync -a /repo/ $S/repo/
  (cd $S/repo && git checkout -q -- . && git apply $V/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
  unshare -Urm bash -c "mount --bind $S/repo /repo && bash /opt/vp/test.sh $S/out.json >$S/log 2>&1; cd /repo && bash $V/seeded/$id/demo.sh >$S/demo.log 2>&1; echo \$? >$S/rc"
  rc1=$(cat $S/rc)
  n=$(python3 -c "
import json; o=set(json.load(open('$S/out.json'))['passed']); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); print(len(b-o))")
  (cd /repo && bash $V/seeded/$id/demo.sh >$S/demo0.log 2>&1); rc0=$?
  p=$(python3 -c "import json; print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  rsync -a --delete $S/repo/cpp/lib_moment $S/repo/cpp/eigen $S/an/cpp/ 2>/dev/null || { mkdir -p $S/an/cpp; rsync -a --delete $S/repo/cpp/lib_moment $S/repo/cpp/eigen $S/an/cpp/; }
  MOMENT_REPO=$S/an MOMENT_TUCACHE=/tmp/tucache MOMENT_EVIDENCE=/tmp/mr-ev python3 $V/analysis/run.py $p >$S/check.log 2>&1; ck=$?
  echo "$id [$p]: lost tests=$n demo clean=$rc0 patched=$rc1 check=$ck $(grep -m1 '^  cpp/' $S/check.log | cut -c1-160)"
  [ "$rc0" = 0 ] || tail -3 $S/demo0.log
  [ "$n" = 0 ] || tail -3 $S/log
  (cd $S/repo && git checkout -q -- .)
done
