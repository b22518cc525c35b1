"""writes MANIFEST.json; CLAIMED lists the properties with a check"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = ("contract-based deductive verification: pre/postconditions and loop summaries on the real functions, obligations generated from "
        "/repo's source by pyvc (symbolic execution of the rewritten source) and discharged by z3; counterexamples replayed on the real code")
checks, na = [], []
for p in props:
    c = CLAIMED["checks"].get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": CLAIMED["not_applicable"].get(p["id"], "no contract built yet; not claimed")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3-vt /verif/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3-vt /verif/check.py %s thorough" % p["id"], "technique": TECH,
                   "level": c.get("level", "proof"), "level_note": c["note"], "evidence_file": "evidence/%s.json" % p["id"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "python3-vt runs the verifier, /opt/venv/bin/python runs the real code. Contracts: /verif/contracts, engine: /verif/pyvc, runtime postconditions: /verif/rt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
