#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the results are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, state=state))


CONTRACT = "CBMC code contracts (goto-instrument --dfcc) on the real functions, discharged by z3/MiniSat; generated executions as bounded stand-ins"
exec(open(os.path.join(V, "tools", "catalog.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "python3 -m py_compile lib/yv.py && mkdir -p evidence",
     "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources itself; no hooks are compiled into /repo (contracts are attached by re-declaration in /verif/contracts, where the real .c file is included textually)."}
for p in P:
    if p["technique"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check " + p["id"] + " --thorough",
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    print("valid;", len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
except ImportError:
    print("jsonschema not available")
