#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
TECH = "contract-based deductive verification (contracts on the real Go functions, VC generation from the current source, SMT discharge; counterexamples replayed on the real code)"
NOTE = "Every obligation generated from /repo's current source is discharged for all inputs within the stated preconditions. Trusted: the VC generator in /verif/tool, go/types, z3/cvc5; parameters do not alias; logging has no effect. "
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        ids.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "proof", "level_note": NOTE + p.get("note", "")})
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "hooks": {"guard": "none", "enable": "no hook is needed: contracts are overlaid on the packages at check time", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "See DESIGN.md. Repairs of /repo are listed in known_findings.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
