#!/bin/bash
# confirm.sh ID: in a private mount namespace, with a copy of /repo bound over /repo: demo passes without the patch; with it the build works,
# the stable tests pass and the demo fails.
ID=$1; S=/verif/seeded/$ID; W=/tmp/sc/c_$ID
mkdir -p /tmp/sc; rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo; cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -m bash -c '
mount --bind '$W'/repo /repo; cd /repo
. /opt/vp/env.sh
timeout 300 bash '$W'/demo/demo.sh > '$W'/d0.log 2>&1; echo "demo unpatched rc $?"
git apply '$S'/patch.diff || { echo APPLY FAILED; exit 1; }
bash /opt/vp/test.sh '$W'/out.json > '$W'/t.log 2>&1
python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open("'$W'/out.json"))["passed"])
print("stable tests not passing:", len(b-p), sorted(b-p)[:8])
P
timeout 300 bash '$W'/demo/demo.sh > '$W'/d1.log 2>&1; echo "demo patched rc $?"; tail -3 '$W'/d1.log
' > $W.log 2>&1
cat $W.log; rm -rf "$W/repo" "$W/demo"
