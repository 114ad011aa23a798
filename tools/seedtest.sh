#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug in a scratch copy of /repo: applies, builds, passes the stable
# tests, its demo passes unpatched and fails patched.
id=$1; d=/verif/seeded/$id; w=/tmp/m/$id
rm -rf "/tmp/m/$id"; mkdir -p /tmp/m; cp -a /repo $w
cp -r $d /tmp/m/$id.demo.tmp 2>/dev/null; demo=/tmp/m/demo.$id; rm -rf "/tmp/m/demo.$id"; mv /tmp/m/$id.demo.tmp $demo; rm -f $demo/patch.diff $demo/meta.json
cat > /tmp/m/run.$id.sh <<X
mount --bind $w /repo
ip link set lo up 2>/dev/null
cd /repo
timeout 300 bash $demo/demo.sh > /tmp/m/$id.demo0.out 2>&1; echo "demo unpatched: \$?"
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh > /tmp/m/$id.build.out 2>&1; echo "build: \$?"
timeout 300 bash $demo/demo.sh > /tmp/m/$id.demo1.out 2>&1; echo "demo patched: \$?"
if [ -z "$2" ]; then
bash /opt/vp/test.sh /tmp/m/$id.json > /tmp/m/$id.test.out 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed') or b.get('stable') or b
t=json.load(open('/tmp/m/$id.json'))
m=sorted(set(b)-set(t['passed'])); print('stable tests failing:', len(m), m[:5], 'of', len(b))
P
fi
X
unshare -Urmn bash /tmp/m/run.$id.sh
tail -3 /tmp/m/$id.demo1.out
rm -rf "/tmp/m/$id.keep"; [ -n "$KEEP" ] || rm -rf "/tmp/m/$id"; rm -rf "/tmp/m/demo.$id"
