#!/bin/bash
# confirm.sh ID: in /tmp/seed (copy of /repo): patch applies, builds, tests pass, demo 0 without / nonzero with
id=$1; d=/verif/seeded/$id; S=/tmp/seed
git -C $S checkout -q -- . 
(cd $S && bash $d/demo.sh >/tmp/d0 2>&1); r0=$?
git -C $S apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd $S && bash $d/demo.sh >/tmp/d1 2>&1); r1=$?
git -C $S checkout -q -- .
echo "$id: clean $r0 patched $r1 $(tail -1 /tmp/d1 | cut -c1-150)"; [ $r0 = 0 ] || cat /tmp/d0
