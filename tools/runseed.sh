#!/bin/bash
# runseed.sh ID [checks...]: run checks against a scratch copy with the planted bug
id=$1; shift
d=$(mktemp -d /tmp/rs-XXXX); git clone -q /repo $d/repo; cp -a /verif $d/verif; 
git -C $d/repo apply /verif/seeded/$id/patch.diff || exit 9
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for c in "$@"; do
 for s in ${SEEDS:-1}; do
  VERIF_SEED=$s SB_REPO=$d/repo timeout 900 bash $d/verif/run.sh $c ${TIER:-quick} > $d/out 2>&1; rc=$?
  echo "$id $c seed=$s rc=$rc $(grep -v '^VIOLATION' $d/out | tail -1 | cut -c1-220)"
 done
done
rm -rf "$d"
