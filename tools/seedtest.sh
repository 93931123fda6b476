#!/bin/bash
# usage: seedtest.sh ID...   confirms planted bugs in a scratch copy, then runs the property's check against them in /repo
here="$(cd "$(dirname "$0")/.." && pwd)"
S=/tmp/seedscratch
[ -d $S ] || cp -a /repo $S
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
sed "s#/repo/target#$S/target#g; s#/repo#$S#g" /opt/vp/env.sh > /tmp/seedenv.sh
for id in "$@"; do
  d=$here/seeded/$id
  echo "== $id"
  (cd $S && bash $d/demo.sh >/tmp/seed_$id.clean 2>&1); c=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( . /tmp/seedenv.sh; cd $S; cargo test --workspace --all-targets --no-run --offline ) >/tmp/seed_$id.build 2>&1 || echo "$id: BUILD FAILED"
  ( . /tmp/seedenv.sh; cd $S; L=/tmp/seed_$id.test; cargo test --workspace --lib --bins --tests --examples --no-fail-fast --offline -- --test-threads 8 >$L 2>&1; cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8 >>$L 2>&1; python3 /opt/vp/results.py /tmp/seed_$id.json cargo:$L )
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/seed_{sys.argv[1]}.json'))
st=b.get('stable') or b.get('passed') or b
p=set(o['passed'])
miss=[x for x in st if x not in p]
print(sys.argv[1],'stable tests not passing:',miss[:5],len(miss))
P
  (cd $S && bash $d/demo.sh >/tmp/seed_$id.bug 2>&1); b=$?
  git -C $S checkout -q -- .
  echo "$id: demo clean=$c bug=$b (want 0, nonzero); $(tail -1 /tmp/seed_$id.bug)"
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply $d/patch.diff
    t0=$(date +%s); $here/run.sh $p >/tmp/seed_$id.check 2>&1; r=$?
    git -C /repo checkout -q -- .
    echo "$id: check $p exit=$r $(($(date +%s)-t0))s $(grep VIOLATION /tmp/seed_$id.check)"
  fi
done
