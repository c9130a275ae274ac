#!/bin/bash
# confirm.sh ID [notest]: in the scratch copy /tmp/rs: demo passes unpatched; patched: builds, tests pass, demo fails
id=$1; s=/verif/seeded/$id
if [ ! -d /tmp/rs ]; then cp -a /repo /tmp/rs; fi
cd /tmp/rs && git checkout -q -- . && git pull -q /repo HEAD 2>/dev/null; git -C /tmp/rs reset -q --hard $(git -C /repo rev-parse HEAD)
for f in build test env; do sed 's#/repo#/tmp/rs#g; s#/opt/vp/env.sh#/tmp/vpenv.sh#' /opt/vp/$f.sh > /tmp/vp$f.sh; done
dm() { sed 's#/opt/vp/env.sh#/tmp/vpenv.sh#g' $s/demo.sh > $s/.d.sh; bash $s/.d.sh > /tmp/demo.out 2>&1; r=$?; rm -f $s/.d.sh; return $r; }
if [ "$3" != skip ]; then dm; a=$?; [ $a = 0 ] || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 1; }; fi
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
dm; b=$?; tail -2 /tmp/demo.out | cut -c1-300
[ $b != 0 ] || { echo "$id: demo passes with the patch"; git checkout -q -- .; exit 1; }
grep -q "error: could not compile" /tmp/demo.out && { echo "$id: does not compile"; git checkout -q -- .; exit 1; }
if [ "$2" != notest ]; then
  bash /tmp/vpbuild.sh > /tmp/vpbuild.log 2>&1 || { echo "$id: build fails"; git checkout -q -- .; exit 1; }
  bash /tmp/vptest.sh /tmp/vpout.json > /tmp/vptest.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vpout.json'))
print("baseline keys", list(b)[:6] if isinstance(b,dict) else type(b))
st=b.get('stable') or b.get('passing') or b.get('tests') or b
ok=set(o.get('passed',[])); bad=[t for t in st if t not in ok]
print("tests lost:", bad[:5], len(bad))
P
fi
git checkout -q -- .
echo "$id: confirmed"
