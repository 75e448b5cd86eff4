#!/usr/bin/env python3
"""show.py replay.json [n]: the events of a reported history, compactly"""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["what"][:3000])
rp = d["replay"]
tr = rp.get("trace", rp) if isinstance(rp, dict) else rp
ops = tr.get("ops", []) if isinstance(tr, dict) else tr
for i, o in enumerate(ops, 1):
    o = dict(o)
    r = o.pop("r", None)
    if isinstance(r, dict):
        r = {k: v for k, v in r.items() if v not in ("", [], 0, -1) or k in ("t", "ok", "hits")}
    print(i, o.pop("op"), " ".join("%s=%s" % (k, json.dumps(v)[:2000]) for k, v in o.items()), json.dumps(r) if r is not None else "")
