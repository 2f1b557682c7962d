#!/bin/bash
# tryseeds.sh [id...]: run the property's check against each planted bug (applied to /repo, undone afterwards)
cd /verif; [ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s NOAPPLY"; continue; }
 t=$(date +%s); python3-vt verify.py $p >/tmp/try_$s.log 2>&1; rc=$?; git -C /repo checkout -q -- .
 echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(grep ^VIOLATION /tmp/try_$s.log | tail -1)"; done
