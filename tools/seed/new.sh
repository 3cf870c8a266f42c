#!/bin/bash
# new.sh ID PROPERTY NEEDS WHAT < main.rs body ; the patch is taken from the scratch copy /tmp/seed (git diff)
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d/src
H=/verif/harness/src
for f in util wire conn drive target mini signals; do cp $H/$f.rs $d/src/; done
cp /verif/tools/seed/demo.rs $d/src/; cp /verif/tools/seed/demo.sh $d/demo.sh
{ echo '#![allow(dead_code, unused_imports)]
mod conn; mod demo; mod drive; mod mini; mod signals; mod target; mod util; mod wire;
use demo::*; use target::*; use drive::*; use util::*;
fn main() {'; cat; echo '}'; } > $d/src/main.rs
git -C /tmp/seed diff > $d/patch.diff
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
