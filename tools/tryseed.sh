#!/bin/bash
# tryseed.sh ID...: run each planted change's quick check against a scratch copy of /repo (PYVC_REPO) with the change applied
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/tryseed.XXXXXX); cp -a /repo $d/repo; git -C $d/repo tag -d vcheck-pass >/dev/null 2>&1
  git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(PYVC_REPO=$d/repo python3-vt /verif/check.py $p quick 2>&1); rc=$?
  rm -rf "$d"
  echo "== $id $p rc=$rc $(echo "$out" | grep VIOLATION | head -1 | sed 's/.*replay=[^ ]*//') | $(echo "$out" | grep -B1 VIOLATION | head -1 | cut -c1-150) | failed: $(echo "$out" | grep -c ' failed ')"
done
