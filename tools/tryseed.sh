#!/bin/bash
# tools/tryseed.sh ID...: build, tests, demo and check with the planted bug in /repo, then undo
cd /verif
for s in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  (cd /repo && bash /verif/seeded/$s/demo.sh >/dev/null 2>&1); d0=$?
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
  n=$(python3 -c "import json;print(len(json.load(open('/tmp/o.json'))['passed']))")
  (cd /repo && bash /verif/seeded/$s/demo.sh >/dev/null 2>&1); d1=$?
  python3 checks/run.py $P > /tmp/c.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  python3 - "$s" "$P" $c <<'X'
import json, os, sys
f = "/verif/notes/seed-results.json"
d = json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]] = "check of " + sys.argv[2] if sys.argv[3] == "1" else "missed"
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
X
  echo "$s prop=$P build=$b tests=$n demo0=$d0 demo1=$d1 check=$c $(grep -c VIOLATION /tmp/c.log)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
