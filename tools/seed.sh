#!/bin/bash
# seed.sh ID PROPERTY "needs" "what": take /repo's modified working tree as planted bug ID, validate it, run the check, revert.
set -u
id=$1; prop=$2; needs=$3; what=$4
d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change in /repo"; exit 1; }
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
chmod +x $d/demo.sh
/verif/tools/try_seed.sh $id
