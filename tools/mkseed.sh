#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : the change is in the working tree of /tmp/s/r0, the demonstration in $MAIN
id=$1; d=/verif/seeded/$id
mkdir -p $d
(cd /tmp/s/r0 && git diff > $d/patch.diff && git checkout -q -- .)
cp /verif/tools/demo/{Cargo.toml.in,demo.sh,kit.rs,wire.rs} $d/
[ -n "$MAIN" ] && cp "$MAIN" $d/main.rs
python3 - "$@" <<'P' > $d/meta.json
import sys,json
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
/tmp/orig.sh $d/patch.diff
