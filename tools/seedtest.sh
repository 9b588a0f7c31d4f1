#!/bin/bash
# seedtest.sh SEED...: development helper.  For each planted bug: applies it to a scratch copy of /repo, builds, runs the tests and the
# demonstration (with and without), runs the property's check against the copy.
export GIT_CONFIG_COUNT=0
R=/tmp/seedrepo
[ -d $R ] || cp -a /repo $R
for s in "$@"; do
  d=/verif/seeded/$s
  git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $R && bash $d/demo.sh >/tmp/seed_demo0 2>&1); d0=$?
  git -C $R apply $d/patch.diff || { echo "$s: does not apply"; continue; }
  (cd $R && bash $d/demo.sh >/tmp/seed_demo1 2>&1); d1=$?
  t=-
  if [ -z "$NOTEST" ]; then
    git -C /repo apply $d/patch.diff; bash /opt/vp/build.sh >/tmp/seed_build 2>&1; b=$?; bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test 2>&1; t="build=$b $(tail -1 /tmp/seed_test)"; git -C /repo checkout -q -- .
  fi
  (cd /verif && VERIF_REPO=$R timeout 900 bash check.sh $p quick >/tmp/seed_check 2>&1); c=$?
  echo "$s [$p]: demo $d0/$d1 tests: $t check=$c $(grep -h 'failed obligation' /tmp/seed_check | head -2 | cut -c1-150 | tr '\n' ';') $(grep -h VIOLATION /tmp/seed_check | grep -o no-failing.*) $(tail -1 /tmp/seed_check | cut -c1-80)"
  git -C $R checkout -q -- .
done
