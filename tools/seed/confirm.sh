#!/bin/bash
# confirm.sh ID...: in a scratch copy of /repo, checks that each planted change builds, passes the tests, and that its demo tells it apart.
W=/tmp/seed
mkdir -p $W
if [ ! -d $W/repo ]; then cp -a /repo $W/repo; fi
if [ ! -d $W/vp ]; then mkdir -p $W/vp; for f in /opt/vp/*.sh /opt/vp/*.py; do sed "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g" $f > $W/vp/$(basename $f); done; cp /opt/vp/BASELINE.json $W/vp/; fi
for id in "$@"; do
  P=/verif/seeded/$id
  (cd $W/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target)
  (cd $W/repo && git apply --check $P/patch.diff) || { echo "$id: patch does not apply"; continue; }
  # unchanged
  bash $W/vp/build.sh > $W/b0.log 2>&1 || { echo "$id: base build failed"; continue; }
  (cd $W/repo && bash $P/demo.sh > $W/d0.log 2>&1); r0=$?
  (cd $W/repo && git apply $P/patch.diff)
  if bash $W/vp/build.sh > $W/b1.log 2>&1; then
    (cd $W/repo && bash $P/demo.sh > $W/d1.log 2>&1); r1=$?
    if [ -n "$NOTEST" ]; then t=skipped; else t=$(bash $W/vp/test.sh $W/out.json 2>/dev/null | tail -1); fi
    echo "$id: demo base $r0, patched $r1; tests: $t; $(head -c 300 $W/d1.log | head -2 | tr '\n' ' ')"
    [ $r0 = 0 ] || head -5 $W/d0.log
  else echo "$id: patched build failed"; tail -20 $W/b1.log; fi
  (cd $W/repo && git checkout -q -- .)
done
