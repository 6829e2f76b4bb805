#!/bin/bash
# tryseed.sh ID [notest]: confirm a planted bug (tests pass, demo discriminates) and see whether its check catches it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || exit 1
t=skip; [ "${2:-}" = notest ] || t=$(/verif/tests_ok.sh 2>&1 | tail -1)
bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
cd /verif; MC_EVIDENCE=/tmp/ev ./run.sh check $p quick >/tmp/chk.log 2>&1; c=$?
git -C /repo checkout -- .
echo "$id $p demo clean=$a patched=$b tests=[$t] check=$c $(grep -m1 -A1 VIOLATION /tmp/chk.log | tr '\n' ' ' | cut -c1-250)"
[ $a = 0 ] || tail -5 /tmp/demo0.log
