#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=(), hook=None, design=""):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                      state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=hook)),
                  technique=technique, note=note, design=design))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["d"]["title"]) <= 80, p["d"]["title"]
        f.write(json.dumps(p["d"]) + "\n")
from vlib import plans
NA = [(a, b) for a, b in NOT_APPLICABLE]
checks = []
for p in P:
    i = p["d"]["id"]
    if i not in plans.PLANS:
        if i not in [a for a, _ in NA]:
            NA.append((i, "check under construction"))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: every monitor works at the public interface of the unmodified sources", source_commits=[]),
         checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="Runtime monitoring and sanitizers only. Each check compiles the real sources from /repo's working tree into monitored executables and runs them; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
def design():
    out = ["## Properties\n"]
    for p in P:
        d = p["d"]
        out.append("### %s  %s\n" % (d["id"], d["title"]))
        out.append(d["statement"] + "\n")
        out.append("*Deciding method:* %s.  %s\n" % (p["technique"], p["design"]))
        if d["id"] in plans.PLANS:
            out.append("*Counted as a case:* %s" % plans.PLANS[d["id"]][1])
            if plans.PLANS[d["id"]][2]:
                out.append("*Assumes:* " + "; ".join(plans.PLANS[d["id"]][2]) + ".")
        out.append("\n*Why the tests cannot settle it:* %s\n" % d["why_tests_cant"])
    for a, b in NA:
        out.append("* %s is not claimed: %s" % (a, b))
    fin = ["## Genuine defects\n", "Repaired (one `fix:` commit each) or recorded; see `known_findings.txt` for the identifying keys.\n"]
    for l in open(os.path.join(V, "known_findings.txt")):
        if not l.startswith("#") and l.strip():
            fin.append("* " + l.strip())
    cat = {}
    try:
        cat = json.load(open(os.path.join(V, "tools", "catch.json")))
    except OSError:
        pass
    se = ["## Planted bugs and what catches them\n", "| seed | property | needs | caught by (quick) |", "|---|---|---|---|"]
    for s in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
        se.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], cat.get(s, "not run yet")))
    t = open(os.path.join(V, "tools", "design_head.md")).read()
    t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(fin)).replace("@@SEEDS@@", "\n".join(se))
    open(os.path.join(V, "DESIGN.md"), "w").write(t + "\n")


design()
try:
    from jsonschema import validate
    validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        validate(p["d"], s)
    print("valid:", len(P), "properties,", len(checks), "checks")
except ImportError:
    print("jsonschema missing; not validated")
