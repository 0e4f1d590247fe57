#!/bin/bash
# tools/seedtest.sh NAME... : run the repository's stable tests with the planted change, in a scratch copy (/tmp/st, kept between calls)
S=/tmp/st; mkdir -p $S/vp
if [ ! -d $S/repo ]; then mkdir -p $S/repo; (cd /repo && git archive HEAD | tar -x -C $S/repo); (cd $S/repo && git init -q . && git add -A >/dev/null && git -c user.email=a@b -c user.name=a commit -qm x); fi
cp /opt/vp/*.py /opt/vp/*.sh /opt/vp/*.json $S/vp/
sed -i "s#/opt/vp#$S/vp#g; s#^REPO=/repo#REPO=$S/repo#" $S/vp/*.sh
for n in "$@"; do
  (cd $S/repo && git checkout -q -- . && (git -C /repo archive HEAD src | tar -x -m -C $S/repo.new 2>/dev/null || true) && git apply --whitespace=nowarn /verif/seeded/$n/patch.diff) || { echo "$n: patch fails"; continue; }
  bash $S/vp/test.sh $S/out.json > $S/log 2>&1
  python3 - $n <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/st/out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests'); ok=set(o['passed'])
bad=[t for t in st if t not in ok]
print(sys.argv[1], 'stable', len(st), 'failing', len(bad), bad[:5])
P
  (cd $S/repo && git checkout -q -- .)
done
