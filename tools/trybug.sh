#!/bin/bash
# trybug.sh ID [--nocheck]: applies seeded/ID to /repo, builds, tests, runs the demo and the check of its property, and reverts.
D=/verif/seeded/$1; cd /repo || exit 9
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
S=$(mktemp -d); cp $D/demo* $S/
clean=-; if [ "$2" != "--fast" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh >$S/c.log 2>&1; clean=$?; fi
git apply $D/patch.diff || { echo "$1: patch does not apply"; exit 9; }
T=-; demo=-
if [ "$2" != "--fast" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$1: build fails"; tail -5 /tmp/b.log; exit 9; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
T=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {n for n,v in d[k].items() if v in('pass','passed',True)}
bp=names(b); tp=names(t); print('missing', len(bp-tp), sorted(bp-tp)[:3])
P
)
bash $S/demo.sh >$S/d.log 2>&1; demo=$?
fi
chk=-; if [ "$2" != "--nocheck" ]; then (cd /verif; python3 check.py ${3:-$prop} > $S/chk.log 2>&1; echo $? > $S/rc); chk=$(cat $S/rc); fi
echo "$1 prop=$prop clean-demo=$clean tests: $T patched-demo=$demo check=$chk $(grep -h 'violated:\|ERROR' $S/chk.log 2>/dev/null | head -2 | cut -c1-200)"
[ "$clean" != 0 ] && [ "$clean" != - ] && tail -3 $S/c.log
rm -rf "$S"
