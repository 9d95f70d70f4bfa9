#!/bin/bash
# trybug.sh ID [check]: unchanged: demo must pass; patched: build, (TESTS=1: tests), demo must fail, check must report
d=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp /verif/dev/seedlib/lib.sh $d/lib.sh
[ -n "$SKIPCLEAN" ] || { bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo clean build failed; exit 1; }
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/tb.demo0 2>&1); echo "clean demo: $?"; }
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo patched build failed; tail -5 /tmp/tb.log; }
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/tb.demo1 2>&1); echo "patched demo: $?"; tail -3 /tmp/tb.demo1
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('stable tests lost:',b-set(json.load(open('/tmp/tb.json'))['passed']))"; fi
for c in ${2:-$P}; do (cd /verif; timeout 900 python3 sa/run.py $c | tail -4 | cut -c1-220); done
git -C /repo checkout -- .
