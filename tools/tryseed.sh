#!/bin/bash
# tryseed.sh ID...: runs the property's check with each planted bug applied to a clone of /repo.
R=/tmp/tryrepo
rm -rf /tmp/tryrepo; git clone -q /repo $R
V=${VERIF:-/verif}
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $R apply $d/patch.diff || continue
  s=$(date +%s)
  out=$(cd $V && GV_REPO=$R bash check.sh $p 2>&1); rc=$?
  git -C $R checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s: $(echo "$out" | grep VIOLATION)"
  echo "$out" | head -${LINES_SHOWN:-4} | cut -c1-300
done
rm -rf /tmp/tryrepo
