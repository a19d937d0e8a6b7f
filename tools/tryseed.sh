#!/bin/bash
# tryseed.sh ID [CHECK...]: demonstration without and with the change, and the checks with it
id=$1; shift; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# = 0 ] && set -- $p
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash $d/demo.sh > /tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || exit 2
bash $d/demo.sh > /tmp/demo2.out 2>&1; b=$?
echo "$id: demo unchanged $a changed $b: $(tail -1 /tmp/demo2.out | cut -c1-200)"
[ $a != 0 ] && tail -5 /tmp/demo.out
for c in "$@"; do
  ( cd /verif; mkdir -p /tmp/vp; cp -r known known-findings.json /tmp/vp/ 2>/dev/null
    s=$(date +%s); VP_VERIF=/tmp/vp VERIF_SEED=${VERIF_SEED:-1} bash run.sh $c quick > /tmp/check.out 2>&1; r=$?
    echo "$id: $c exit $r in $(($(date +%s)-s)) s: $(grep -E 'VIOLATION' /tmp/check.out | head -1 | cut -c1-150)"; [ $r = 2 ] && tail -5 /tmp/check.out | cut -c1-300 )
done
git checkout -q -- .
