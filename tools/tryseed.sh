#!/bin/bash
# usage: tools/tryseed.sh ID [PROPERTY...]   Tries a planted bug: tests, demonstration, checks.
id=$1; shift
s=/verif/seeded/$id
cp /verif/tools/drv.py "$s/drv.py"
cd /repo || exit 1
git diff --quiet || { echo "/repo is not clean"; exit 1; }
props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build fails"; exit 1; }
bash "$s/demo.sh" >/tmp/d.log 2>&1; echo "$id demo on clean tree: $? ($(tail -1 /tmp/d.log))"
git apply "$s/patch.diff" || { echo "$id does not apply"; exit 1; }
if bash /opt/vp/build.sh >/tmp/b.log 2>&1; then
  bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1; echo "$id tests: $(tail -1 /tmp/t.log)"
  bash "$s/demo.sh" >/tmp/d.log 2>&1; echo "$id demo with bug: $? ($(tail -1 /tmp/d.log))"
  for p in $props; do
    (cd /verif && bash run.sh "$p" >/tmp/c.log 2>&1; echo "$id check $p: exit $? $(grep -m1 VIOLATION /tmp/c.log) $(grep -m1 'failed:' /tmp/c.log | cut -c1-160)")
  done
else
  echo "$id does not build"; tail -20 /tmp/b.log
fi
git checkout -q -- .
