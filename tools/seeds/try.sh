#!/bin/bash
# Try planted bugs: do they build, pass the tests, is the demonstration right, does the check catch?
# usage: [NOCHECK=1] try.sh id...
cd /verif/seeded
mkdir -p /tmp/seeded-extra
s=/tmp/seedtry; mkdir -p $s; [ -d $s/repo ] || git clone -q /repo $s/repo
git -C $s/repo checkout -q -- . ; git -C $s/repo pull -q 2>/dev/null; git -C $s/repo fetch -q /repo HEAD && git -C $s/repo reset -q --hard FETCH_HEAD
[ $# = 0 ] && set -- *
for id in "$@"; do
  cd /verif/seeded; [ -d $id ] || cd /tmp/seeded-extra
  d=$(pwd)
  prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  cp -r $id $s/demo-$id; rm -f $s/demo-$id/{patch.diff,meta.json}
  (cd $s/repo && bash $s/demo-$id/demo.sh > $s/$id.clean 2>&1); c=$?
  git -C $s/repo apply $d/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $s/repo && timeout 200 cargo test --offline --lib > $s/$id.test 2>&1); t=$?
  np=$(grep -o '[0-9]* passed' $s/$id.test | head -1)
  (cd $s/repo && bash $s/demo-$id/demo.sh > $s/$id.bug 2>&1); b=$?
  git -C $s/repo checkout -q -- .
  k=-
  if [ -z "${NOCHECK:-}" ]; then
  git -C /repo apply $d/$id/patch.diff
  (cd /verif && LOKKY_SIM_MINIMISE=2 LOKKY_SIM_DIR=/tmp/seedtry/sim ./check.sh $prop quick > $s/$id.check 2>&1); k=$?
  git -C /repo checkout -q -- .
  fi
  echo "$id $prop: clean=$c tests=$t ($np) bug=$b check=$k | $(grep -h '^found' $s/$id.check | head -1 | cut -c1-150) | $(tail -1 $s/$id.bug | cut -c1-100)"
  rm -rf $s/demo-$id
done
