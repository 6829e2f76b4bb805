#!/bin/bash
# mkseed.sh ID PROP "deps" "needs" "breaks" < main.rs : takes /repo's uncommitted diff as the patch, reverts it
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
git -C /repo checkout -- .
cat > $d/main.rs
sed -e "s/@DEPS@/$3/" -e "s/@EXTRA@/${6:-}/" /verif/tools/demo.sh.tmpl > $d/demo.sh; chmod +x $d/demo.sh
python3 - "$d/meta.json" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
