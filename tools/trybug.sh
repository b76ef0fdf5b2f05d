#!/bin/bash
# tools/trybug.sh ID [property]: runs the check of a planted bug's property against a copy of /repo that has the bug.
id=$1; d=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$t"' EXIT
git -C /repo archive HEAD | tar -x -C "$t"
(cd "$t" && git apply "$d/patch.diff") || exit 9
s=$(date +%s)
VF_REPO=$t VF_EVIDENCE=$t/evidence python3 /verif/bin/check $prop > $t/out 2>&1; rc=$?
echo "$id $prop rc=$rc $(($(date +%s)-s))s $(grep -A1 -m1 VIOLATION $t/out | tail -1 | cut -c1-110)"
[ $rc -eq 1 ] || tail -5 $t/out
