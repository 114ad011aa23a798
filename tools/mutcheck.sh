#!/bin/bash
# mutcheck.sh ID [PROP]: run the check of a planted bug's property (or PROP) against a scratch copy with the bug.
id=$1; d=/verif/seeded/$id; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/m/mc.$id; rm -rf "/tmp/m/mc.$id" ; mkdir -p /tmp/m; cp -a /repo $w; git -C $w apply $d/patch.diff || exit 9
VERIF_REPO=$w VERIF_BUILD=/tmp/m/mc.$id.build timeout 900 python3 /verif/check.py $p quick > /tmp/m/mc.$id.out 2>&1; echo "$id $p -> $?"; tail -4 /tmp/m/mc.$id.out | cut -c1-200
rm -rf "/tmp/m/mc.$id" "/tmp/m/mc.$id.build"
