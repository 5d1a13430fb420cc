#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", na=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": f"./run.sh {id} quick", "thorough_cmd": f"./run.sh {id} thorough",
                       "evidence_file": f"evidence/{id}.json",
                       "technique": "contracts on the real Go functions, discharged by a deductive verifier (go/ssa to SMT, Z3 and cvc5)",
                       "level": level, "level_note": note})
CHECKS = []
exec(open(os.path.join(HERE, "properties.py")).read())
P.sort(key=lambda p: p["id"]); CHECKS.sort(key=lambda c: c["property"])
for p in P:
    assert len(p["title"]) <= 80, p["id"]
open(os.path.join(ROOT, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "hooks": {"guard": "none", "enable": "no hooks: contracts are laid over the package with go's -overlay", "source_commits": []},
     "checks": CHECKS, "not_applicable": NA}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
