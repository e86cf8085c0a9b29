"""Writes /verif/MANIFEST.json: every property with a props/cNN.py is claimed, the others are listed with a reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real LEGWORK functions on symbolic inputs (path exploration) with every assertion discharged by "
        "an SMT solver (z3, cross-checked with cvc5 in the thorough tier); counterexamples and one witness per path are replayed on the unpatched package")
NOTE = ("Holds for every value of the symbolic inputs within the bounds printed in the evidence file; array sizes, harmonic lists and option "
        "combinations are the listed ones. Real arithmetic (relative closeness 1e-9 stands for equality): floating-point rounding is outside. "
        "scipy/astropy/numpy primitives are trusted as modelled in engine/npx.py (see DESIGN.md). ")
NA = {}      # property -> reason, for properties the technique cannot decide
EXTRA = {}
try:
    from manifest_notes import EXTRA, NA          # noqa
except ImportError:
    pass

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")) and p not in NA:
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "model_checking",
                       "level_note": NOTE + EXTRA.get(p, "")})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks import /repo/src directly (pure Python), so every run re-encodes the current source."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
