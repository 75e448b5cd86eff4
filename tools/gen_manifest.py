#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "checks")]
sys.dont_write_bytecode = True
from props import P
from registry import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/build.py plain asan", "checks": [], "not_applicable": [],
     "notes": "Checks build metaproxy's sources from /repo against the YAZ++ stand-in in shim/ (YAZ++ is not installed here); no hooks in /repo are needed."}
for p in P:
    if p["na"] or p["id"] not in CHECKS:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p["technique"], "level": CHECKS[p["id"]][2], "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
ids = {p["id"] for p in P}
assert set(CHECKS) <= ids, set(CHECKS) - ids
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
# DESIGN.md
t = open(os.path.join(V, "notes/DESIGN.in.md")).read()
s = "## Properties\n"
for p in P:
    s += "\n### %s %s\n\n" % (p["id"], p["title"])
    if p["id"] not in CHECKS:
        s += "Not claimed: %s\n" % (p["na"] or "no check built yet")
        continue
    s += "*Method*: %s. %s\n\n*Why beyond tests*: must hold for %s. %s\n" % (p["technique"], p["note"], p["text"], p["why"])
    s += "\n*Check*: `checks/%s.py:%s`.\n" % (CHECKS[p["id"]][0], CHECKS[p["id"]][1])
t = t.replace("@@PROPS@@", s)
kf = json.load(open(os.path.join(V, "known-findings.json")))
t = t.replace("@@FIXED@@", "\n".join("* " + x for x in kf["fixed"]))
t = t.replace("@@KNOWN@@", "\n".join("* property=%s %s" % (x["property"], x.get("what", "")) for x in kf["known"]) or "None.")
rf = os.path.join(V, "notes/seed-results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, mt["property"], mt["needs"], mt["what_it_breaks"], res.get(d, "not run")))
if os.path.isdir(sd):
    t = t.replace("@@SEEDS@@", "\n".join(rows))
    open(os.path.join(V, "DESIGN.md"), "w").write(t)
