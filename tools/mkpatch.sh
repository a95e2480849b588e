#!/bin/bash
# mkpatch.sh ID FILE PYEXPR : edit FILE in a worktree (python: s -> new s), write seeded/ID/patch.diff
ID=$1; F=$2; W=/tmp/sc/w_$ID
rm -rf "$W"; mkdir -p /tmp/sc; git -C /repo archive --prefix=w_$ID/ HEAD | tar x -C /tmp/sc; cd $W; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm b
python3 - "$F" "$3" <<'P'
import sys
f,e=sys.argv[1:]; s=open(f).read(); o=s
ns={'s':s}; exec(e,ns); s=ns['s']
assert s!=o, 'no change'
open(f,'w').write(s)
P
git diff > /verif/seeded/$ID/patch.diff; cat /verif/seeded/$ID/patch.diff; rm -rf "$W"
