#!/bin/bash
# quick check of several properties, short output
for p in "$@"; do /verif/run.py check $p ${TIER:+--tier $TIER} ${SEED:+--seed $SEED} > /tmp/ck-$p.log 2>&1; echo "$p rc=$? $(tail -40 /tmp/ck-$p.log | cut -c1-${W:-700} | tail -${N:-8})"; done
