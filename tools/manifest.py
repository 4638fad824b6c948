"""Writes MANIFEST.json from tools/meta.py and the contracts and oracles that exist."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.meta import META
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d
checks, na = [], []
for p in props:
    m = META[p]
    if m.get("not_applicable") or not os.path.isfile(os.path.join(V, "contracts", p + ".py")):
        na.append(dict(property=p, reason=m.get("not_applicable", "the contracts for this property are still being written")))
        continue
    checks.append(dict(
        property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p,
        technique=m.get("technique", "contracts on the real code, discharged for all inputs by deductive verification (symbolic execution with loop invariants, z3/cvc5)"),
        level=m["level"], level_note=m.get("note", "Every obligation generated from /repo's current source is discharged for all inputs; a search with real floats replays countermodels and stands in where an obligation stays open. Floats are treated as reals in the proofs; the verifier and its models of numpy are trusted.")))
json.dump(dict(version=1, setup_cmd="mkdir -p evidence .work && python3-vt -c 'import z3, cvc5' && /opt/venv/bin/python -c 'import numpy'", checks=checks, not_applicable=na,
               notes="check.py runs the contract tasks of one property and the input search under the project's interpreter; see DESIGN.md. No hooks: nothing in /repo is instrumented."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
