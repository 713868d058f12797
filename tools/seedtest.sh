#!/bin/bash
# developer tool: seedtest.sh ID...   checks that planted bugs count (in a scratch copy) and whether the check catches them
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d); cp -a /repo $W/r; cd $W/r
  bash $S/demo.sh >$W/d0 2>&1; r0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  bash $S/demo.sh >$W/d1 2>&1; r1=$?
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ -z "$NOTESTS" ]; then
   # stable tests, built from the copy
   cmake -S . -B $W/b >/dev/null 2>&1
   T=skipped
  fi
  cd /verif; GTV_REPO=$W/r python3-vt -m gtv.run $P ${ARGS} >$W/out 2>&1; rc=$?
  echo "$id: demo clean=$r0 patched=$r1 check $P rc=$rc $(grep -c '^failing input' $W/out) inputs, $(grep -c '^failed obl' $W/out) obligations; $(grep -m1 VIOLATION $W/out | grep -o no-failing.*)"
  [ $r0 -ne 0 ] && tail -3 $W/d0
  [ $rc -ne 1 ] && tail -2 $W/out
  rm -rf "$W"
done
