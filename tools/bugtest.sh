#!/bin/bash
# Confirm a planted bug in a scratch copy bind-mounted over /repo: bugtest.sh ID [notests]
# Prints: demo on clean tree, demo with patch, tests newly failing.
id=$1; S=/verif/seeded/$id; W=/tmp/bt/$id
rm -rf "$W"; mkdir -p /tmp/bt; cp -a /repo "$W"; cp -r "$S" "$W.seed"; rm -f "$W.seed"/patch.diff "$W.seed"/meta.json
cat > "$W.run" <<X
mount --bind $W /repo; cd /repo
timeout 300 bash $W.seed/demo.sh > $W.demo0.log 2>&1; echo "demo clean: \$?"
git -c safe.directory=/repo apply $S/patch.diff || exit 1
bash /opt/vp/build.sh > $W.build.log 2>&1; echo "build: \$?"
timeout 300 bash $W.seed/demo.sh > $W.demo1.log 2>&1; echo "demo patched: \$?"
if [ "$2" != notests ]; then
bash /opt/vp/test.sh $W.json > $W.test.log 2>&1
python3 - <<Y
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$W.json'))
p=set(r.get('passed',r.get('pass',[])))
print('stable failing:', sorted(b-p)[:20], len(b-p))
Y
fi
X
unshare -Urm bash "$W.run"
rm -rf "$W" "$W.seed" "$W.run"
