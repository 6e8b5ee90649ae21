#!/bin/bash
# run.sh [id...]: applies each seeded change to a scratch copy and prints which properties the analyser reports.
. /tmp/env.sh 2>/dev/null
bin=${SA:-/verif/bin/sa}
one() {
 id=$1; d=$(mktemp -d); cp -a /repo "$d/repo"
 git -C "$d/repo" apply /verif/seeded/$id/patch.diff || echo "$id: does not apply"
 SA_DIR=$d/repo SA_SPEC=all timeout 600 $bin > "$d/out" 2>&1
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 cp "$d/out" /tmp/seed.$id.out
 echo "$id property=$p $(python3 /verif/tools/plant/sum.py $d/out $p)"
 rm -rf "$d"
}
export -f one; export bin
ids="$*"; [ -n "$ids" ] || ids=$(ls /verif/seeded)
printf '%s\n' $ids | xargs -P4 -I{} bash -c 'one {}'
