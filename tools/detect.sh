#!/bin/bash
# detect.sh ID...: runs the quick check of the property of each planted bug on /repo with the bug applied (development tool)
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  bash /verif/tools/check.sh $p quick > /tmp/detect_$id.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id: $p exit $r; $(grep -m1 VIOLATION /tmp/detect_$id.log); $(grep -c . /tmp/detect_$id.log) lines; $(tail -1 /tmp/detect_$id.log | cut -c1-160)"
done
