#!/usr/bin/env python3
"""The properties and their checks; writes properties.jsonl, MANIFEST.json and checks.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "libs/cryptography/domain/hash/"
T = "libs/cryptography/domain/hashtrees/"
props, checks, na = [], {}, []

def P(id, title, statement, over, text, why, files, mech, observe, check=None, no=None, state=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}}
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    props.append(p)
    if no:
        na.append({"property": id, "reason": no})
    else:
        checks[id] = check

def C(note, level="proof", proof=True, assumptions=(), bounded=(), harness_s=8, theorems=(), technique=None):
    return dict(level=level, note=note, proof=proof, assumptions=list(assumptions), bounded=list(bounded), harness_s=harness_s,
                technique=technique or "contract-based deductive verification of the Go SSA (gover: pre/postconditions, loop invariants, lemmas; SMT back ends)")

exec(open(V + "/tools/properties.py").read())

with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in checks.items()],
     "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump({i: {k: c[k] for k in ("level", "proof", "assumptions", "bounded", "harness_s")} for i, c in checks.items()}, open(V + "/checks.json", "w"), indent=1)
