"""writes BOUNDS.md: every scenario of every property, its tier, its bounds and the property's assumptions"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
from engine import load as ld
ld.symbolic_import()
from engine import core
out = ["# Scenarios, bounds and assumptions (generated by tools/gen_bounds.py)", ""]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    core.REG.clear()
    m = importlib.import_module("props." + p["id"].lower())
    out += ["## %s %s" % (p["id"], p["title"]), ""]
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("* assumes: " + a)
    for s in core.REG:
        if s.fn.__module__ == m.__name__:
            out.append("* `%s`%s: %s" % (s.name, "" if s.tier == "quick" else " (thorough)", s.bounds))
    out.append("")
open(os.path.join(ROOT, "BOUNDS.md"), "w").write("\n".join(out))
