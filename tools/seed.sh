#!/bin/bash
# seed.sh ID [CHECK...]: verifies a planted change: clean demo 0, patched builds, tests pass, demo nonzero, checks that fire
id=$1; shift
d=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
checks=${*:-$P}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || { echo "patch fails"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1; python3 -c "import json;d=json.load(open('/tmp/seed.$id.json'));print('tests',len(d['passed']),'failed',d['failed'])"
bash $d/demo.sh >/tmp/seed.$id.bug 2>&1; echo "demo patched: $?"; tail -2 /tmp/seed.$id.bug | cut -c1-200
cd /verif
caught=
for c in $checks; do ./run $c >/tmp/seed.$id.$c 2>&1; rc=$?; echo "check $c: $rc"; [ $rc = 1 ] && caught="$caught $c"; grep -v "obligations" /tmp/seed.$id.$c | cut -c1-260 | head -${LINES_MAX:-4}; done
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; git status --porcelain | head -3

python3 - "$id" "$caught" <<'PY'
import json,sys,os
p='/verif/seeded/results.json'
d=json.load(open(p)) if os.path.exists(p) else {}
d[sys.argv[1]]=sys.argv[2].strip() or "missed"
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
PY
