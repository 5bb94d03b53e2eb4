#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, note=note, level=level, na=na))


TV = "TLA+ specification checked with TLC, bound to the VM by trace validation of recorded executions (%s)"
exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]

checks, na = [], []
for p in P:
    script = "props/%s.py" % p["id"].lower()
    if p["na"] is None and os.path.exists(os.path.join(V, script)):
        checks.append({"property": p["id"],
                       "quick_cmd": "VERIF_TIER=quick python3 " + script,
                       "thorough_cmd": "VERIF_TIER=thorough python3 " + script,
                       "technique": p["technique"], "level": p["level"],
                       "level_note": " ".join(p["note"].split())})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q vlib props",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: every observation is made through the public Smalltalk API. DESIGN.md says how each check decides; known_findings.jsonl lists defects found."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
