#!/bin/bash
# tryseeds.sh [id...]: run each planted change's property's quick check against a patched scratch copy of /repo
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
  w=/tmp/tryrepo_$s; rm -rf "/tmp/tryrepo_$s"; git clone -q /repo $w
  git -C $w apply "/verif/seeded/$s/patch.diff" || { echo "$s APPLY-FAILED"; continue; }
  t0=$(date +%s)
  VF_REPO=$w VF_EVIDENCE=/tmp timeout 900 ./run.sh $p quick > /tmp/try_$s.log 2>&1; rc=$?
  rm -rf "/tmp/tryrepo_$s"
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /tmp/try_$s.log | cut -c1-100)"
done
