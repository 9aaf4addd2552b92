#!/usr/bin/env python3
"""writes MANIFEST.json from proptab.PROPS (claimed: entries with claim=True) and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import proptab
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = proptab.PROPS.get(i)
    if p and p.get("claim"):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt run.py check " + i,
                           thorough_cmd="VERIF_TIER=thorough python3-vt run.py check " + i,
                           technique=p.get("technique", "contract-based deductive verification of the real C functions (weakest-precondition style obligations, SMT)"),
                           level=p["level"], level_note=p["note"]))
    else:
        na.append(dict(property=i, reason=proptab.NA.get(i) or "check under construction"))
m = dict(version=1, setup_cmd="python3-vt run.py setup", checks=checks, not_applicable=na,
         notes="Verifier: /verif/vcg. Design, assumptions and results: DESIGN.md. No hooks in /repo: contracts live in /verif/vcg/specs and are bound to /repo's functions by name on every run.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
