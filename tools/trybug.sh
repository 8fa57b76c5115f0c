#!/bin/bash
# trybug.sh ID...: run the property's check against a scratch copy of /repo with the planted bug
for id in "$@"; do
d=$(mktemp -d /tmp/trybugXXXXXX); cp -a /repo "$d/repo"
prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" && (cd /verif && PXV_REPO="$d/repo" timeout 900 python3 check.py "$prop" quick >"$d/out" 2>&1; echo "$id $prop exit=$? $(grep -a VIOLATION "$d/out" | cut -c1-200)")
rm -rf "$d"
done
