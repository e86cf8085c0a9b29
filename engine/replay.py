"""Replays inputs against the unpatched package:  python -m engine.replay FILE  (one counterexample or a batch)."""
import json
import multiprocessing as mp
import os
import sys
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def run_one(scn, lw, item, tier, jitter=0):
    from engine import core
    x = core.ConCtx(item["values"], item["choices"], lw, tier, jitter=jitter, fill_seed=item.get("fill", 0))
    out = {"failures": [], "checked": 0, "infeasible": False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            scn.fn(x)
    except core.Infeasible:
        out["infeasible"] = True
        x.failures = []
    except Exception as e:
        if core.stub_trouble(e):
            out["infeasible"] = True
        else:
            x.failures.append(("exception", "%s: %s @ %s" % (type(e).__name__, e, core.where())))
    finally:
        x.undo()
    out["failures"] = x.failures
    out["checked"] = x.checked
    return out


def load(prop, tier):
    import importlib
    from engine import core
    core.REG.clear()
    pm = importlib.import_module("props." + prop.lower())
    return {s.name: s for s in core.REG if s.fn.__module__ == pm.__name__}


_G = {}


def _job(job):
    import numpy as np
    np.seterr(all="ignore")
    scns, lw = _G["s"], _G["lw"]
    item = job
    res = run_one(scns[item["scenario"]], lw, item, item["tier"])
    # a violation must survive perturbations of the inputs by rounding-size amounts
    if res["failures"] and not item.get("exact"):
        for j in (1, 2):
            r2 = run_one(scns[item["scenario"]], lw, item, item["tier"], jitter=j)
            if not r2["failures"]:
                res["fragile"] = True
    return res


def main():
    fn = sys.argv[1]
    d = json.load(open(fn))
    os.environ.setdefault("MPLBACKEND", "Agg")
    devnull = None
    from engine import load as ld
    lw = ld.plain_import()
    batch = d.get("batch")
    scns = load(d["property"], d["tier"])
    _G.update(s=scns, lw=lw)
    if batch is None:
        item = dict(d, tier=d["tier"])
        res = run_one(scns[d["scenario"]], lw, item, d["tier"])
        print("inputs:", json.dumps(d["values"], indent=1), d.get("shown"))
        for l, m in res["failures"]:
            print("FAILED %s: %s" % (l, m))
        if not res["failures"]:
            print("assumptions not met" if res["infeasible"] else "holds")
        sys.exit(1 if res["failures"] else 0)
    with mp.get_context("fork").Pool(min(8, max(1, len(batch)))) as pool:
        out = []
        hs = [pool.apply_async(_job, (b,)) for b in batch]
        for h in hs:
            try:
                out.append(h.get(timeout=240))
            except mp.TimeoutError:
                out.append({"failures": [], "checked": 0, "infeasible": False, "timeout": True})
            except Exception as e:
                out.append({"failures": [], "checked": 0, "infeasible": False, "error": repr(e)})
        pool.terminate()
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
