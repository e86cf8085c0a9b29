"""in-process run of one scenario with a trace:  /opt/venv/bin/python -W ignore tools/debug.py c08 shared_times [seconds]"""
import collections
import os
import sys
import time
import traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.chdir(ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.environ['MPLBACKEND'] = 'Agg'
import importlib
import numpy as np
np.seterr(all='ignore')
from engine import load as ld
lw = ld.symbolic_import()
from engine import core, smt
core.REG.clear()
importlib.import_module("props." + sys.argv[1].lower())
scn = {s.name: s for s in core.REG if s.fn.__module__ == "props." + sys.argv[1].lower()}[sys.argv[2]]
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 120
SymCtx, Run = core.make_symctx()
orig = Run.obligation
slow = []
T = [time.time()]
st = Run.structural


def structural(self, x, label, detail):
    print("STRUCT", label, str(detail)[:300], x.choices)
    if label == "exception":
        tb = traceback.format_exc().splitlines()
        print("\n".join(tb[:12] + ["..."] + tb[-60:]))
    return st(self, x, label, detail)


def obligation(self, x, label, cond, num):
    t = time.time()
    k = (self.n_proved, self.n_obl)
    try:
        orig(self, x, label, cond, num)
    finally:
        dt = time.time() - t
        if dt > 0.7:
            print("slow %.1fs %s %s" % (dt, label, x.choices), flush=True)
        if self.n_obl - k[1] > self.n_proved - k[0]:
            print("NOT PROVED", label, x.choices, repr(cond)[:600], "PATH", [repr(c)[:200] for c in x.path.conds][:12], flush=True)


Run.obligation = obligation
Run.structural = structural
t0 = time.time()
r = Run(scn, lw, 1, "quick", secs).go()
for k in ("paths", "forks", "obligations", "proved", "queries", "solver_s", "kinds", "undecided", "notes"):
    print(k, str(r[k])[:700])
print("cands", r["candidates"][:3])
print("wall %.1f" % (time.time() - t0))
