#!/bin/bash
# seedconfirm.sh ID... : confirms planted changes in a scratch copy of /repo bind-mounted over /repo (development aid)
S=/tmp/seedrepo
mkdir -p $S /tmp/seedvp; rsync -a --delete /repo/ $S/ 2>/dev/null || { rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; }
cp -a /opt/vp/. /tmp/seedvp/
for id in "$@"; do
unshare -Ur -m bash -c '
mount --bind /tmp/seedrepo /repo; cd /repo; id='$id'; D=/verif/seeded/$id
bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 || { echo "$id base build failed"; exit; }
bash $D/demo.sh >/tmp/seedd0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "$id patch does not apply"; exit; }
bash /opt/vp/test.sh /tmp/seedt.json >/tmp/seedb.log 2>&1; 
miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); t=json.load(open(\"/tmp/seedt.json\"))
b=b.get(\"passed\",b.get(\"stable\",b)) if isinstance(b,dict) else b
print(len(set(b)-set(t[\"passed\"])), list(set(b)-set(t[\"passed\"]))[:3])")
bash $D/demo.sh >/tmp/seedd1.log 2>&1; d1=$?
git checkout -q -- .
echo "$id demo-clean=$d0 demo-patched=$d1 missing-tests=$miss"; [ $d0 = 0 ] || head -5 /tmp/seedd0.log; [ $d1 = 1 ] || head -5 /tmp/seedd1.log
'
done
