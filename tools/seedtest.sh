#!/bin/bash
# usage: seedtest.sh [-q] ID...   confirm seeded changes in a scratch worktree and run their check against them (-q: check only)
Q=0; [ "$1" = -q ] && { Q=1; shift; }
for ID in "$@"; do
  D=/verif/seeded/$ID; W=/tmp/seedwt-$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo worktree add -q --detach "$W" HEAD || exit 1
  cd "$W"; R="$ID [$P]"
  if [ $Q = 0 ]; then bash "$D/demo.sh" >/tmp/seed-$ID.d0 2>&1; R="$R demo-clean=$?"; fi
  git apply "$D/patch.diff" || R="$R PATCH-FAILS"
  if [ $Q = 0 ]; then
    bash "$D/demo.sh" >/tmp/seed-$ID.d1 2>&1; R="$R demo-patched=$?"
    sed "s#/repo\b#$W#g" /opt/vp/test.sh > /tmp/seed-$ID.test.sh
    PYTHONPATH=$W bash /tmp/seed-$ID.test.sh /tmp/seed-$ID.json >/tmp/seed-$ID.log 2>&1
    R="$R tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-$ID.json'))
def names(d):
    for k in ('passed','stable','tests','stable_passed'):
        if k in d: return set(d[k])
x=sorted(names(b)-names(o)); print('ok' if not x else 'REGRESSIONS(%d):%s' % (len(x), x[:2]))
P
)"
  fi
  cd /verif; VERIF_REPO=$W timeout 900 ./check.sh $P >/tmp/seed-$ID.chk 2>&1; C=$?
  R="$R check=$C"
  grep -q "^VIOLATION property=$P" /tmp/seed-$ID.chk && R="$R CAUGHT ($(grep -m1 '^harness' /tmp/seed-$ID.chk | cut -c1-110))"
  echo "$R" | tee /tmp/seed-$ID.res
  git -C /repo worktree remove --force "$W"; rm -f /tmp/seed-$ID.test.sh
done
