"""python -m engine.run PROPERTY quick|thorough : decides one property on the current /repo tree."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
os.environ.setdefault("MPLBACKEND", "Agg")
PY = sys.executable
_G = {}


def worker(name):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from engine import core, smt
    scn = _G["scns"][name]
    smt.KEEP_DUMP[0] = 1 if _G["tier"] == "thorough" else 0
    SymCtx, Run = core.make_symctx()
    t0 = time.time()
    funcs = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "legwork-functions")

        def start(code, off):
            if "/legwork/" in code.co_filename:
                funcs.add("%s:%s" % (os.path.basename(code.co_filename), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except ValueError:
        pass
    try:
        r = Run(scn, _G["lw"], _G["seed"], _G["tier"], scn.seconds * (1 if _G["tier"] == "quick" else 3)).go()
    except BaseException as e:      # engine trouble: no answer
        from engine.core import where
        r = {"scenario": name, "error": "%s: %s @ %s" % (type(e).__name__, e, where()), "paths": 0}
    r["wall"] = time.time() - t0
    r["functions"] = sorted(f for f in funcs if "<" not in f)
    return r


def worker_proc(name, q):
    try:
        r = worker(name)
    except BaseException as e:
        r = {"scenario": name, "error": repr(e), "paths": 0}
    q.put(r)


def run_pool(names, limit, nproc):
    """one process per scenario (z3 state and symbolic tables are per process)"""
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    todo = list(names)
    live = {}
    res = {}
    t_end = time.time() + limit
    import threading
    got = []

    def reader():
        while True:
            x = q.get()
            if x is None:
                return
            got.append(x)
    th = threading.Thread(target=reader, daemon=True)
    th.start()
    while todo or live:
        while todo and len(live) < nproc:
            n = todo.pop(0)
            p = ctx.Process(target=worker_proc, args=(n, q))
            p.start()
            live[n] = p
        time.sleep(0.05)
        for r in got[:]:
            got.remove(r)
            res[r["scenario"]] = r
            p = live.pop(r["scenario"], None)
            if p is not None:
                p.join(5)
        for n, p in list(live.items()):
            if not p.is_alive():
                time.sleep(0.3)
                if not any(r["scenario"] == n for r in got) and n not in res:
                    res[n] = {"scenario": n, "error": "worker died with code %s" % p.exitcode, "paths": 0}
                    live.pop(n)
        if time.time() > t_end:
            for n, p in live.items():
                p.terminate()
                res[n] = {"scenario": n, "error": "time limit", "paths": 0}
            for n in todo:
                res[n] = {"scenario": n, "error": "time limit (not started)", "paths": 0}
            break
    q.put(None)
    return [res[n] for n in names]


def known_findings(prop):
    """{scenario:label substring: description} listed for this property"""
    out = []
    fn = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out.append((key.strip(), desc.strip()))
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    from engine import load as ld
    import importlib
    try:
        lw = ld.symbolic_import()
    except Exception as e:
        print("cannot import the package symbolically: %r" % e)
        sys.exit(3)
    from engine import core
    core.REG.clear()
    pm = importlib.import_module("props." + prop.lower())
    scns = {s.name: s for s in core.REG if (s.tier == "quick" or tier == "thorough") and s.fn.__module__ == pm.__name__}
    if only:
        scns = {k: v for k, v in scns.items() if k in only}
    _G.update(scns=scns, lw=lw, seed=seed, tier=tier)
    names = sorted(scns, key=lambda n: -scns[n].weight)
    results = run_pool(names, 780 if tier == "quick" else 7200, min(8, os.cpu_count() or 4))
    # ---- replay on the unpatched package
    batch, origin = [], []
    for r in results:
        for c in r.get("candidates", []):
            batch.append({"scenario": r["scenario"], "values": c["values"], "choices": c["choices"], "tier": tier})
            origin.append(("cand", r, c))
        for w in r.get("witnesses", []):
            batch.append({"scenario": r["scenario"], "values": w["values"], "choices": w["choices"], "tier": tier})
            origin.append(("wit", r, w))
        # where the encoding or the solver gave up, the same scenario is at least run on concrete inputs
        if r.get("error") or any(lab in ("engine", "budget", "exception") for lab, _, _ in r.get("undecided", [])):
            for k in range(40):
                batch.append({"scenario": r["scenario"], "values": {}, "choices": None, "tier": tier, "fill": 1000 * seed + k})
                origin.append(("fallback", r, {"shown": {}}))
    outs = []
    if batch:
        with tempfile.TemporaryDirectory() as td:
            bf, of = os.path.join(td, "b.json"), os.path.join(td, "o.json")
            json.dump({"property": prop, "tier": tier, "batch": batch}, open(bf, "w"))
            env = dict(os.environ)
            env["PYTHONPATH"] = ROOT
            env.pop("NUMBA_DISABLE_JIT", None)
            p = subprocess.run([PY, "-m", "engine.replay", bf, of], cwd=ROOT, env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True)
            if p.returncode != 0 or not os.path.exists(of):
                print("replay process failed:\n" + p.stderr[-3000:])
                sys.exit(4)
            outs = json.load(open(of))
    known = known_findings(prop)
    violations, kf, unrepro, fragile = [], {}, [], 0
    validated = 0
    reproduced_labels = set()
    for (kind, r, c), b, o in zip(origin, batch, outs):
        if o["failures"]:
            hits = []
            for lab, det in o["failures"]:
                k = next((d for key, d in known if key == "%s/%s" % (r["scenario"], lab)), None)
                if k:
                    kf[k] = kf.get(k, 0) + 1
                    reproduced_labels.add((r["scenario"], c.get("label")))
                else:
                    hits.append((lab, det))
            if hits:
                if o.get("fragile"):
                    fragile += 1
                    if kind == "cand":
                        unrepro.append((r["scenario"], c.get("label"), "only at a rounding-sensitive input"))
                    continue
                violations.append((r["scenario"], b, hits, c))
                reproduced_labels.add((r["scenario"], c.get("label")))
        else:
            if kind == "wit" and not o["infeasible"] and not o.get("timeout") and not o.get("error"):
                validated += 1
            elif kind == "cand":
                unrepro.append((r["scenario"], c["label"], c["detail"]))
    inconclusive = []
    for r in results:
        if r.get("error"):
            inconclusive.append((r["scenario"], r["error"]))
        for lab, why, ch in r.get("undecided", []):
            if (r["scenario"], lab) not in reproduced_labels:
                inconclusive.append((r["scenario"], "%s: %s %s" % (lab, why, ch)))
        if not r.get("error") and r["paths"] == 0:
            inconclusive.append((r["scenario"], "no path"))
    for s, lab, det in unrepro:
        if (s, lab) not in reproduced_labels:
            inconclusive.append((s, "%s: counterexample did not reproduce (%s)" % (lab, det)))
    # ---- second solver (thorough): every kept query must get a compatible answer from cvc5
    cross = {"queries": 0, "agree": 0, "unknown": 0, "disagree": 0}
    if tier == "thorough":
        cross = crosscheck(results)
        if cross["disagree"]:
            inconclusive.append(("cvc5", "solvers disagree on %d queries" % cross["disagree"]))
    # ---- report
    rc = 0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for d in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if violations:
        seen = set()
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        for s, b, hits, c in violations:
            if (s, hits[0][0]) in seen:
                continue
            seen.add((s, hits[0][0]))
            fn = os.path.join(ROOT, "evidence", "replay", "%s_%s_%d.json" % (prop, s, len(seen)))
            json.dump(dict(b, property=prop, shown=c.get("shown"), failures=hits), open(fn, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            print("   scenario %s: %s: %s" % (s, hits[0][0], hits[0][1][:300]))
            if len(seen) >= 5:
                break
        rc = 1
    elif inconclusive:
        for s, m in inconclusive[:25]:
            print("UNDECIDED %s: %s" % (s, m[:700]))
        # nothing at all was decided: no answer
        if not any(r.get("proved") or r.get("checks") for r in results):
            rc = 2
    tot = lambda k: sum(r.get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    kinds = {}
    for r in results:
        for k, v in r.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + v
    samples = []
    for (kind, r, c), o in zip(origin, outs):
        if kind == "wit" and len(samples) < 6 and not o["failures"]:
            samples.append({"scenario": r["scenario"], "choices": c["shown"],
                            "inputs": {k: v for k, v in list(c["values"].items())[:12] if not k.startswith("_")},
                            "assertions_checked_on_real_code": o["checked"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks") + tot("obligations"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "obligations": tot("obligations"), "discharged": tot("proved"),
            "explanation": "states = feasible execution paths of the real functions explored symbolically; transitions = forks taken plus "
                           "assertion queries; every assertion on every path is discharged by z3 for all input values within the bounds; "
                           "traces_validated = path witnesses re-run on the unpatched package with all assertions passing.",
            "solver_queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 2), "discharged_by": kinds,
            "functions_encoded": funcs,
            "bounds": {r["scenario"]: r.get("bounds", "") for r in results},
            "scenarios": {r["scenario"]: {"paths": r.get("paths"), "obligations": r.get("obligations"), "wall_s": round(r.get("wall", 0), 1)}
                          for r in results},
            "second_solver": cross, "rounding_sensitive_inputs_ignored": fragile,
            "undecided_count": len(inconclusive),
            "undecided": [list(i) for i in inconclusive[:20]],
        },
        "assumptions": COMMON + list(getattr(pm, "ASSUMPTIONS", [])) + sorted({n for r in results for n in r.get("notes", [])}),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: paths=%d obligations=%d proved=%d queries=%d solver=%.1fs validated=%d/%d wall=%.1fs -> %s"
          % (prop, tier, tot("paths"), tot("obligations"), tot("proved"), tot("queries"), tot("solver_s"), validated,
             sum(1 for o in origin if o[0] == "wit"), time.time() - t0, {0: "holds" if not inconclusive else "no violation on what was explored, %d undecided" % len(inconclusive),
                 1: "VIOLATED", 2: "no answer"}[rc]))
    sys.exit(rc)


COMMON = [
    "real arithmetic: floating-point rounding below 1e-9 relative is outside the claim",
    "within the stated input ranges and numbers of sources, time steps and harmonics only",
    "numba-compiled functions are executed from their Python source; replays use the compiled ones",
]


def crosscheck(results):
    import shutil
    exe = shutil.which("cvc5")
    out = {"queries": 0, "agree": 0, "unknown": 0, "disagree": 0}
    if not exe:
        return out
    jobs = [d for r in results for d in r.get("dump", [])]
    jobs = core_thin(jobs, 120)
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        txt, exp = job
        if exp not in ("sat", "unsat"):
            return None
        p = subprocess.run([exe, "--lang", "smt2", "--tlimit=10000", "-"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True)
        lines = [l for l in p.stdout.split() if l in ("sat", "unsat", "unknown")]
        return exp, (lines[0] if lines else "unknown")
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            out["queries"] += 1
            if r[1] == "unknown":
                out["unknown"] += 1
            elif r[0] == r[1]:
                out["agree"] += 1
            else:
                out["disagree"] += 1
    return out


def core_thin(lst, n):
    from engine.core import thin
    return thin(lst, n)


if __name__ == "__main__":
    main()
