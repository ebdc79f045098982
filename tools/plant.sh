#!/bin/bash
# tools/plant.sh NAME PROPERTY: turn the edits made in the scratch copy /tmp/seedwork/repo into
# seeded/NAME (demo.rs taken from /tmp/seedwork/demo.rs, meta from /tmp/seedwork/{needs,breaks}).
set -u
root=/verif; name="$1"; prop="$2"; w=/tmp/seedwork/repo
d=$root/seeded/$name; mkdir -p "$d"
git -C $w diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp $root/tools/seedlib/common.rs $root/tools/seedlib/demo.sh "$d/"
cp /tmp/seedwork/demo.rs "$d/demo.rs"
python3 - "$d" "$prop" <<'P'
import json,sys
d,p=sys.argv[1:]
json.dump({"property":p,"needs":open('/tmp/seedwork/needs').read().strip(),"what_it_breaks":open('/tmp/seedwork/breaks').read().strip()},open(d+'/meta.json','w'),indent=1)
P
exec $root/tools/try_seed.sh "$name"
