#!/bin/bash
# tools/against.sh ID...  run the check of each planted bug's property with the bug applied. The check runs at /verif against
# /repo, in a mount namespace where both are scratch copies. PROPS="P01 P02" runs other checks instead. COPY=/tmp/ag2 for a second one.
A=${COPY:-/tmp/ag}
if [ -z "$INNER" ]; then
  rm -rf "$A"; mkdir -p "$A"
  cp -a /repo "$A/repo"; rm -rf "$A/repo/target"; cp -a /verif "$A/verif"
  INNER=1 unshare -m bash "$0" "$@"; rm -rf "$A"; exit 0
fi
mount --bind "$A/repo" /repo; mount --bind "$A/verif" /verif; cd /verif
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('${SD:-/verif/seeded}/$id/meta.json'))['property'])")
  git -C /repo apply ${SD:-/verif/seeded}/$id/patch.diff || continue
  for q in ${PROPS:-$p}; do
    t=$SECONDS
    /verif/run.py check $q --tier ${TIER:-quick} > $A/out 2>&1; rc=$?
    echo "$id $q rc=$rc $((SECONDS-t))s $(grep -c VIOLATION $A/out) violations; $(grep -m1 'op [0-9]*:' $A/out | cut -c1-${W:-200})"
  done
  git -C /repo checkout -- .
done
