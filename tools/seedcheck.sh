#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch worktree (build, stable
# tests, demonstration without and with the patch) and runs the property's check.
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedwt
. /opt/vp/env.sh
[ -d $W ] || git -C /repo worktree add -q --detach $W HEAD
git -C $W checkout -q --detach "${REV:-$(git -C /repo rev-parse HEAD)}"; git -C $W checkout -q .; git -C $W clean -fdq
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  cd $W && git checkout -q . && git clean -fdq
  r="$id ($prop):"
  bash $d/demo.sh > /tmp/seed.clean 2>&1; r="$r clean=$?"
  git apply $d/patch.diff || { echo "$r does not apply"; continue; }
  go build ./... || r="$r NOBUILD"
  rm -rf dht/conf dht/krpc/conf
  go test -json -vet=off -count=1 -p 1 -timeout 5m ./dht ./dht/krpc > /tmp/seed.test 2>/dev/null
  r="$r tests=$(python3 - <<P
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open('/tmp/seed.test'):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=st-ok
print('ok' if not m else 'FAIL'+str(sorted(m)))
P
)"
  rm -rf dht/conf dht/krpc/conf
  bash $d/demo.sh > /tmp/seed.bad 2>&1; r="$r patched=$?"
  if [ -z "$NOCHECK" ]; then
    $V/check.sh $prop -repo $W -noev > /tmp/seed.chk 2>&1; c=$?
    r="$r check=$c $(grep -m1 'violated in' /tmp/seed.chk | cut -c1-150)"
  fi
  echo "$r"
  git checkout -q . ; git clean -fdq
done
