#!/bin/bash
# tryseed.sh ID... : run each seed's property's check against a scratch copy of /repo with the seed applied
for id in "$@"; do
d=/verif/seeded/$id; [ -d $d ] || d=$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/trysXXXX); cp -a /repo $w/r
if git -C $w/r apply $d/patch.diff; then
s=$(date +%s); (cd /verif; GVC_REPO=$w/r ./check.sh check -prop $p -n 2>&1 | grep -E "VIOLATION|FAILED|UNPROVED|obligations|KNOWN" | cut -c1-${W:-250}); echo "$(basename $id) [$p] $(( $(date +%s)-s ))s"
fi
rm -rf "$w"
done
