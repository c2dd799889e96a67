#!/bin/bash
# plant.sh ID [check...]: demo on clean tree, apply, build+tests, demo, checks, undo
id=$1; shift; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo checkout -- . ; cd /repo
bash $d/demo.sh > /tmp/demo.clean 2>&1; echo "demo clean rc=$?"
git -C /repo apply $d/patch.diff || exit 1
bash /tmp/rt.sh | head -1
bash $d/demo.sh > /tmp/demo.bug 2>&1; echo "demo bug rc=$?"; tail -3 /tmp/demo.bug | cut -c1-300
for c in ${@:-$p}; do (cd /verif; python3 run.py $c quick > /tmp/chk.out 2>&1; echo "check $c rc=$?"; grep -v "^ *$" /tmp/chk.out | head -3 | cut -c1-300; grep VIOLATION /tmp/chk.out | head -1); done
git -C /repo checkout -- .
