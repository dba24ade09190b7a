#!/bin/bash
# tools/tryseed.sh ID [notest] [CHECK...]: tries the planted bug seeded/ID against /repo (demo, stable tests, checks) and undoes it.
id=$1; shift; S=/verif/seeded/$id; T=1
[ "$1" = notest ] && { T=0; shift; }
cd /repo; git diff --quiet || { echo "dirty /repo"; exit 1; }
bash /opt/vp/build.sh >/dev/null || exit 1
D=$(mktemp -d /tmp/demo.XXXX); cp "$S"/* $D/; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >$D/clean.log 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seedbuild.log || { echo BUILD FAILS; tail /tmp/seedbuild.log; git checkout -- .; exit 1; }
timeout 300 bash $D/demo.sh >$D/bug.log 2>&1; echo "demo bug: $?"; tail -3 $D/bug.log
if [ $T = 1 ]; then bash /opt/vp/test.sh /tmp/seedtest.json >/tmp/seedtest.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtest.json')); print(list(r)[:5])
def names(d):
    for k in ('stable_pass','stable','passed','pass'):
        if k in d: return set(d[k])
    return set()
print('stable lost:', sorted(names(b)-names(r))[:5] or 'none', len(names(b)))
P
fi
cd /verif
for c in "$@"; do python3 check.py $c quick >/tmp/seedcheck.log; echo "check $c: exit $?"; grep -A1 -m2 VIOLATION /tmp/seedcheck.log | cut -c1-200; done
git -C /repo checkout -- .
rm -rf $D
