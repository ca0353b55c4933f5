#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the current /repo diff as patch.diff, and demo.cpp from stdin; resets /repo
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
cat > $d/demo.cpp
cp /verif/tools/${DEMO:-demo}/base.hpp $d/; cp /verif/tools/${DEMO:-demo}/demo.sh $d/
python3 - "$@" <<'PY'
import sys,json
id,prop,needs,what=sys.argv[1:5]
json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open('/verif/seeded/%s/meta.json'%id,'w'),indent=1)
PY
