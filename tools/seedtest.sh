#!/bin/bash
# tools/seedtest.sh ID [nobuild] : confirm a planted bug in place (patch, build, tests, demo, check), then undo it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1; git diff --quiet || { echo "repo dirty"; exit 1; }
bash $D/demo.sh >/tmp/w/demo0.out 2>&1; d0=$?
git apply $D/patch.diff || exit 1
bash $D/demo.sh >/tmp/w/demo1.out 2>&1; d1=$?
if [ "$2" != nobuild ]; then
 bash /opt/vp/build.sh >/tmp/w/seed_build.log 2>&1; b=$?; bash /opt/vp/test.sh /tmp/w/seed_out.json >/dev/null 2>&1
 t=$(python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/seed_out.json'))
def names(x):
    x=x.get('stable',x.get('passed',x)) if isinstance(x,dict) else x
    return set(x)
B=names(b); O=set(o.get('passed',[])); print(len(B-O), 'missing', list(B-O)[:3])
Q
)
else b=skip; t=skip; fi
cd /verif; for p in ${PROPS:-$P}; do s=$(date +%s); ./check.py $p >/tmp/w/seed_check_$p.out 2>&1; echo "   check $p rc=$? $(grep -c ^VIOLATION /tmp/w/seed_check_$p.out) violations $(( $(date +%s)-s )) s: $(grep -v ^VIOL /tmp/w/seed_check_$p.out | head -2 | cut -c1-260)"; done
git -C /repo checkout -- . ; echo "$1 $P: demo clean=$d0 patched=$d1 build=$b tests: $t"
