#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from defs/props.py (one source, so they stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from defs.props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
claimed = [p for p in PROPS if os.path.exists(os.path.join(here, "checks", p["id"].lower() + ".py"))]
for p in PROPS:
    if p not in claimed: NOT_APPLICABLE.append(dict(p, reason="check under construction"))
checks = []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(claimed + NOT_APPLICABLE, key=lambda p: p["id"]):
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(d) + "\n")
for p in claimed:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="./run " + i, thorough_cmd="./run %s --thorough" % i, evidence_file="evidence/%s.json" % i,
                       technique=p["technique"], level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 -m sa.front", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE],
         notes="Static analysis only: every check re-parses /repo's current sources with clang (tool/extract.cpp), builds a resolved program model and decides its rules on it. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed", len(NOT_APPLICABLE), "not applicable")
# DESIGN.md
more = ""
for p in PROPS:
    if p.get("design"): more += "\n### %s %s\n%s\n" % (p["id"], p["title"], p["design"].strip())
more += "\n### Not applicable\n" + "".join("* **%s** %s: %s\n" % (p["id"], p["title"], p["reason"]) for p in NOT_APPLICABLE)
res = json.load(open(os.path.join(here, "seeded", "results.json"))) if os.path.exists(os.path.join(here, "seeded", "results.json")) else {}
rows = "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    mp = os.path.join(here, "seeded", b, "meta.json")
    if not os.path.exists(mp): continue
    m = json.load(open(mp))
    rows += "| %s | %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], m["what_it_breaks"], res.get(b, "?"))
t = open(os.path.join(here, "DESIGN.tmpl.md")).read()
open(os.path.join(here, "DESIGN.md"), "w").write(t.replace("@@MORE@@", more).replace("@@SEEDS@@", rows))
