#!/bin/bash
# try.sh id... : run the property's check on a copy with the bug
try1() { id=$1; c=/tmp/try_$id; rm -rf $c; cp -a /repo $c
 git -C $c apply /verif/seeded/$id/patch.diff || echo "$id NOAPPLY"
 p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
 cd /verif; s=$(date +%s); out=$(RV_REPO=$c RV_NO_EVIDENCE=1 VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check $p 2>&1); rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
 rm -rf $c; }
export -f try1
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'try1 {}'
