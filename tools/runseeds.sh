#!/bin/bash
# runs each planted bug's check against a scratch copy: runseeds.sh [id ...]   (development aid; no check uses it)
V=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls $V/seeded))
for i in "${ids[@]}"; do
  W=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo $W/repo
  if git -C $W/repo apply $V/seeded/$i/patch.diff; then
    P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
    VERIF_REPO=$W/repo bash $V/check.sh $P quick > $W/log 2>&1; rc=$?
    echo "$i $P rc=$rc $(grep -c '^VIOLATION' $W/log) $(tail -1 $W/log | cut -c1-150)"
  else echo "$i: patch does not apply"; fi
  rm -rf "$W"
done
