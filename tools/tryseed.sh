#!/bin/bash
# tryseed.sh LANE ID [CHECK...]: confirms a planted bug in a private copy of /repo, bind-mounted over /repo
# in a mount namespace of its own. Development tool; no check uses it.
L=$1; ID=$2; shift 2
S=/verif/seeded/$ID; LANE=/tmp/lane$L; OUT=/tmp/seedlog.$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
{
[ -d $LANE ] || cp -a /repo $LANE
cd $LANE && git checkout -q -- . && git pull -q --ff-only /repo HEAD || { echo "LANE BROKEN"; exit 1; }
} >$OUT 2>&1
unshare -m bash -s >>$OUT 2>&1 <<X
mount --make-rprivate / ; mount --bind $LANE /repo; cd /repo
git apply --check $S/patch.diff || { echo RESULT patch-does-not-apply; exit; }
if [ -z "$NOBUILD" ]; then
bash /opt/vp/build.sh </dev/null >/tmp/b.$ID 2>&1
bash $S/demo.sh >/tmp/d0.$ID 2>&1 && echo "RESULT demo-clean ok" || echo "RESULT demo-clean FAILS"
git apply $S/patch.diff
bash /opt/vp/build.sh </dev/null >/tmp/b.$ID 2>&1 && echo "RESULT build ok" || { echo "RESULT build FAILS"; tail -30 /tmp/b.$ID; git checkout -q -- .; exit; }
bash $S/demo.sh >/tmp/d1.$ID 2>&1 && echo "RESULT demo-patched PASSES(bad)" || echo "RESULT demo-patched fails(good)"
bash /opt/vp/test.sh /tmp/t.$ID >/tmp/tl.$ID 2>&1 </dev/null
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed',b.get('stable',b)) if isinstance(b,dict) else b
t=set(json.load(open('/tmp/t.$ID'))['passed'])
miss=[x for x in b if x not in t]
print('RESULT tests', 'ok' if not miss else 'BROKEN %s'%miss[:5])
PY
else git apply $S/patch.diff; fi
cd /verif
for c in ${@:-$P}; do timeout 1500 ./check \$c </dev/null >/tmp/c.$ID.\$c 2>&1; rc=\$?; echo "RESULT check \$c exit \$rc \$(grep -c ^VIOLATION /tmp/c.$ID.\$c) \$(grep -m1 'fails:' /tmp/c.$ID.\$c)"; done
cd /repo; git checkout -q -- .
X
echo "$ID ($P): $(grep RESULT $OUT | sed 's/RESULT //' | tr '\n' ';')" | tee -a /tmp/seedresults
