#!/bin/bash
# tools/seed.sh ID PROPERTY NEEDS BREAKS CASE.py [MAIN.rs]
# Turns the uncommitted change of the scratch copy /tmp/rw of /repo into /verif/seeded/ID (and undoes it), then confirms it.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"; W=${W:-/tmp/rw}
git -C $W diff > "$d/patch.diff"; git -C $W checkout -q -- .
[ -s "$d/patch.diff" ] || { echo "no change"; exit 2; }
cp /tmp/tmpl/demo.sh "$d/demo.sh"; chmod +x "$d/demo.sh"; cat /tmp/tmpl/case_head.py "$5" > "$d/case.py"; cp "${6:-/tmp/tmpl/main.rs}" "$d/main.rs"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
(cd $W && bash "$d/demo.sh" > /tmp/seed.$id.clean 2>&1); a=$?
(cd "$W" && git apply "$d/patch.diff") || { echo "does not apply"; }
(cd "$W" && bash "$d/demo.sh" > /tmp/seed.$id.bug 2>&1); b=$?
(cd "$W" && git checkout -q -- .)
echo "$id clean=$a bug=$b : $(tail -1 /tmp/seed.$id.bug | cut -c1-200)"
[ $a = 0 ] || tail -3 /tmp/seed.$id.clean | cut -c1-300
/verif/tools/try.sh $d/patch.diff $2
