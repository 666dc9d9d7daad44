#!/bin/bash
# tools/seed.sh ID...   confirms planted bugs in a scratch copy of /repo: builds, stable tests pass, demo distinguishes
. /opt/vp/env.sh
W=/tmp/seedcopy
rm -rf /tmp/seedcopy; cp -a /repo $W; cd $W || exit 1
for id in "$@"; do
  D=/verif/seeded/$id
  git -C $W checkout -q -- . 
  if ! git apply --check $D/patch.diff 2>/tmp/seed.err; then echo "$id: patch does not apply: $(cat /tmp/seed.err)"; continue; fi
  if [ -z "$SKIPCLEAN" ]; then bash $D/demo.sh >/tmp/seed.out 2>&1; c=$?; else c=-; fi
  git apply $D/patch.diff
  if ! cargo build --offline -q 2>/tmp/seed.err; then echo "$id: does not build: $(tail -5 /tmp/seed.err)"; git checkout -q -- .; continue; fi
  bash $D/demo.sh >/tmp/seed.out2 2>&1; p=$?
  rm -rf $W/test_out; mkdir -p $W/test_out
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed.log 2>&1
  python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log >/dev/null 2>&1
  lost=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))

print(sorted(set(b['stable'])-set(r['passed'])))
PY
)
  git checkout -q -- .
  echo "$id: demo clean=$c patched=$p lost=$lost"
done
rm -rf /tmp/seedcopy
