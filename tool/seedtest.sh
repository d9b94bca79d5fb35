#!/bin/bash
# usage: tool/seedtest.sh ID [notest]: confirm a planted bug in /repo (applied, built, tested, demonstrated, checked, undone)
id=$1; S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1
if [ "$2" != notest ]; then bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "$id clean demo: $? (want 0)"; fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "$id: build failed"; tail -5 /tmp/sb.log; }
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "$id planted demo: $? (want nonzero)"
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1; echo "$id tests: $(python3 /tmp/cmp.py)"
fi
bash /verif/check.sh $prop > /tmp/chk.log 2>&1; echo "$id check $prop: exit $?"; grep -A2 '^  src' /tmp/chk.log | cut -c1-220
git checkout -- .
