#!/bin/bash
# Development aid: which checks catch which planted bugs. Changes /repo while it runs.
# usage: matrix.sh [ID...]; own check in full, the others at a tenth
cd /verif || exit 1
for b in ${@:-$(ls seeded)}; do
  own=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  out=""
  for i in $(seq -w 1 23) 25 26 27; do
    s=${OTHERS:-0.1}; [ C$i = $own ] && s=1
    [ "$s" = 0 ] && continue
    VERIF_SCALE=$s timeout 900 ./run.sh C$i >/tmp/mx.log 2>&1; st=$?
    [ $st = 1 ] && grep -q "^VIOLATION property=C$i " /tmp/mx.log && out="$out C$i"
    [ $st -gt 1 ] && out="$out C$i(exit $st)"
  done
  git -C /repo checkout -q -- .
  case " $out " in *" $own "*) r=caught;; *) r=MISSED;; esac
  echo "$b $own $r by$out"
done
