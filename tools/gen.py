"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "symbolic execution of the real code's JAX intermediate representation (jaxpr) into polynomial terms, decided by SMT (z3) over all values within bounds; counterexamples replayed on the real code"
TECH_PY = "symbolic execution of the real Python/JAX code on solver terms, decided by SMT (z3) over all values within bounds; counterexamples replayed on the real code"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, tech=TECH, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, na=na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "technique": p["tech"], "level": "other",
                   "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "Level 'other' = bounded solver verdict: every harness is decided by an SMT query over all values of its symbolic inputs within the bounds reported in the evidence file."}, f, indent=1)
print(len(checks), "checks,", len(na), "not applicable")
