#!/bin/bash
# mkseed.sh ID PROP "needs" "what" < demo.js body : takes the working-tree diff of /tmp/wt (a copy of /repo) and prepares /verif/seeded/ID; then tests it
set -e
ID=$1; WT=/tmp/wt; D=/verif/seeded/$ID; mkdir -p $D
git -C $WT diff > $D/patch.diff
cp /verif/tools/demo/tslib.js $D/lib.js
cat > $D/demo.js
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cat > $D/demo.sh <<'S'
#!/bin/bash
exec node "$(dirname "$0")/demo.js"
S
chmod +x $D/demo.sh
cd $WT; timeout 60 bash $D/demo.sh >/tmp/ms.out 2>&1 && { echo "!! demo passes with patch"; cat /tmp/ms.out; } || true
tail -2 /tmp/ms.out
git -C $WT checkout -q -- .
timeout 60 bash $D/demo.sh || echo "!! demo fails on unchanged"
git -C $WT apply $D/patch.diff
(cd /verif; VERIF_REPO=$WT timeout 900 node run.js $2 2>&1 | tail -4) || true
git -C $WT checkout -q -- .
