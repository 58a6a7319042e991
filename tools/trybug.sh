#!/bin/bash
# trybug.sh ID [SECONDS]  development aid: tries one planted bug in /repo and undoes it
ID=$1; S=${2:-50}; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
C=$(mktemp -d); cp "$D"/demo* "$C"/; cp "$D"/*.h "$C"/ 2>/dev/null
if [ -z "$SKIP" ]; then (cd /repo && bash "$C/demo.sh" >"$C/clean.txt" 2>&1); c=$?; else c=-; fi
git -C /repo apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 9; }
if [ -z "$SKIP" ]; then bash /opt/vp/test.sh "$C/t.json" >"$C/b.log" 2>&1; f=$(python3 -c "import json;d=json.load(open('$C/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b['stable'];print(len(d['passed']),len(d['failed']),len([x for x in b if x not in d['passed']]))" 2>&1|tail -1)
(cd /repo && bash "$C/demo.sh" >"$C/pat.txt" 2>&1); p=$?; fi
t0=$(date +%s); for q in ${PROPS:-$P}; do python3 /verif/check.py $q --seconds $S >"$C/o.txt" 2>&1; k=$?; echo "$ID [$P] tests(pass fail lost)=$f demo clean=$c patched=$p check $q exit=$k $(( $(date +%s)-t0 ))s: $(grep -v VIOLATION "$C/o.txt"|tail -1|cut -c1-220)"; done
if [ -n "$V" ]; then for i in b.log clean.txt pat.txt; do echo "== $i"; tail -n 5 "$C/$i"; done; fi
rm -rf "$C"
