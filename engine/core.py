"""Scenario API.  A scenario is written once and run in two modes:

* symbolic: real LEGWORK sources on symbolic inputs, every assertion discharged by z3 on every path;
* concrete: the unpatched package on floats, used to replay counterexamples and path witnesses.
"""
import copy
import math
import functools
import os
import random
import sys
import time
import traceback
import types

import numpy as np
from astropy import units as u
from astropy.units import Quantity

EPS = 1e-9            # relative closeness proved symbolically (constants are stored as floats)
RTOL = 1e-6           # relative closeness demanded of the real floating-point code in a replay


class Scenario:
    def __init__(self, fn, name, tier, max_paths, seconds, bounds, weight):
        self.fn, self.name, self.tier, self.max_paths, self.seconds = fn, name, tier, max_paths, seconds
        self.bounds, self.weight = bounds, weight


REG = []


def scenario(name=None, tier="quick", max_paths=3000, seconds=420, bounds="", weight=1):
    def deco(fn):
        REG.append(Scenario(fn, name or fn.__name__, tier, max_paths, seconds, bounds, weight))
        return fn
    return deco


class Fail(Exception):
    """an assertion that failed concretely / structurally"""

    def __init__(self, label, detail=""):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Infeasible(Exception):
    pass


class Raised:
    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------------------------------------------ base
class Base:
    u = u
    symbolic = False
    tier = "quick"

    def __init__(self):
        self._undo = []
        self.choices = {}

    # ---- stubs
    def patch(self, obj, name, value):
        missing = object()
        d = vars(obj) if hasattr(obj, "__dict__") else {}
        old = d.get(name, missing)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def replace(self, fn, value):
        """replace a package function everywhere the package refers to it"""
        n = 0
        if not self.symbolic:
            value = genuine_or(fn, value)
        for k, m in list(sys.modules.items()):
            if k == "legwork" or k.startswith("legwork."):
                for name, v in list(vars(m).items()):
                    if v is fn:
                        self.patch(m, name, value)
                        n += 1
        return n

    def undo(self):
        for obj, name, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._undo = []

    # ---- shared assertions
    def eq(self, label, a, b):
        """plain python equality of non-numeric results"""
        self.require(label, type(a) is type(b) and bool(np.all(a == b)) if not isinstance(b, (str, bool, int, type(None), list, tuple))
                     else a == b and (a is None) == (b is None), "%r is not %r" % (a, b))

    def shape(self, label, a, shp):
        s = np.shape(a)
        self.require(label, tuple(s) == tuple(shp), "shape %r, expected %r" % (s, shp))

    def raises(self, label, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return
        except Exception as e:       # noqa
            if type(e).__name__ in ("EngineLimit",):
                raise
            self.fail(label, "raised %s: %s instead of %s" % (type(e).__name__, e, exc))
            return
        self.fail(label, "returned %r instead of raising %s" % (type(r).__name__, exc))

    def require(self, label, ok, detail=""):
        self.count()
        if not ok:
            self.fail(label, detail)

    def count(self):
        pass

    def same_values(self, label, a, b, rtol=RTOL):
        return self.close(label, a, b, rtol=rtol)

    def array(self, name, lo, hi, n, unit=None):
        """n independent values"""
        return self.real(name, lo, hi, unit=unit, shape=(n,))

    def snapshot(self, x):
        """copy of the values (and unit) of an array, to be compared later"""
        if isinstance(x, Quantity):
            return x.copy()
        if isinstance(x, np.ndarray):
            return x.copy()
        if isinstance(x, dict):
            return {k: self.snapshot(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.snapshot(v) for v in x]
        return x

    def unchanged(self, label, x, snap):
        if isinstance(snap, dict):
            self.require(label + " keys", list(x) == list(snap), "keys changed")
            for k in snap:
                self.unchanged(label + "[%s]" % k, x[k], snap[k])
            return
        if isinstance(snap, list):
            self.require(label + " length", isinstance(x, list) and len(x) == len(snap), "length changed")
            for i, (p, q) in enumerate(zip(x, snap)):
                self.unchanged(label + "[%d]" % i, p, q)
            return
        if isinstance(snap, Quantity):
            self.require(label + " unit", isinstance(x, Quantity) and x.unit == snap.unit, "unit changed")
            self.close(label, x, snap)
        elif isinstance(snap, np.ndarray):
            if snap.dtype.kind in "fO":
                self.close(label, x, snap)
            else:
                self.require(label, bool(np.array_equal(x, snap)), "values changed")
        elif isinstance(snap, (int, float)) and not isinstance(snap, bool):
            self.close(label, x, snap)
        elif snap is None or isinstance(snap, (str, bool)):
            self.require(label, x == snap, "changed from %r to %r" % (snap, x))


def unit_align(a, b):
    """values of a and b in the unit of b; raises Fail on incompatible units"""
    if isinstance(b, Quantity):
        if not isinstance(a, Quantity):
            if b.unit.is_equivalent(u.dimensionless_unscaled):
                return np.asarray(a), b.to_value(u.dimensionless_unscaled)
            raise Fail("", "expected a quantity in %s, got a plain %s" % (b.unit, type(a).__name__))
        try:
            return a.to_value(b.unit), b.to_value(b.unit)
        except u.UnitConversionError:
            raise Fail("", "unit %s is not convertible to %s" % (a.unit, b.unit))
    if isinstance(a, Quantity):
        try:
            return a.to_value(u.dimensionless_unscaled), b
        except u.UnitConversionError:
            raise Fail("", "expected a dimensionless value, got unit %s" % a.unit)
    return a, b


# ------------------------------------------------------------------------------------------------------ concrete
class ConCtx(Base):
    def __init__(self, values, choices, lw, tier="quick", jitter=0, fill_seed=0):
        super().__init__()
        self.values, self.given = values, choices
        self.lw = lw
        self.np = np
        self.math = math
        self.tier = tier
        self.failures = []
        self.rng = random.Random(fill_seed)
        self.nchoice = 0
        self.checked = 0
        self.jit = random.Random(jitter) if jitter else None

    def value(self, name, lo, hi, integer=False):
        v = self.values.get(name)
        if v is None:
            v = _draw(self.rng, lo, hi, integer)
        if self.jit is not None and not integer and v not in (lo, hi, 0.0):
            v = v * (1 + 1e-9 * self.jit.uniform(-1, 1))
        v = min(max(v, lo), hi)
        return float(v)

    def real(self, name, lo, hi, unit=None, shape=None, integer=False):
        if shape is None:
            v = self.value(name, lo, hi, integer)
        else:
            v = np.empty(shape)
            for i in np.ndindex(*shape):
                v[i] = self.value("%s[%s]" % (name, ",".join(map(str, i))), lo, hi, integer)
        return v if unit is None else v * unit

    def choice(self, name, options):
        if self.given is None:
            i = self.rng.randrange(len(options))
        else:
            i = self.given[self.nchoice] if self.nchoice < len(self.given) else 0
        self.nchoice += 1
        self.choices[name] = repr(options[i])[:60]
        return options[i]

    def assume(self, c):
        if not bool(np.all(c)):
            raise Infeasible()

    def stub_np(self, name, fn):
        self.patch(np, name, fn)

    def count(self):
        self.checked += 1

    def fail(self, label, detail=""):
        self.failures.append((label, str(detail)[:600]))

    def true(self, label, c, detail=""):
        self.count()
        if not bool(np.all(c)):
            self.fail(label, detail or "condition is false")

    def close(self, label, a, b, rtol=RTOL, scale=None):
        self.count()
        try:
            x, y = unit_align(a, b)
        except Fail as e:
            return self.fail(label, e.detail)
        try:
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        except (TypeError, ValueError) as e:
            return self.fail(label, "not numeric: %s" % e)
        if x.shape != y.shape:
            return self.fail(label, "shape %r, expected %r" % (x.shape, y.shape))
        with np.errstate(all="ignore"):
            tol = rtol * np.maximum(np.abs(x), np.abs(y))
            if scale is not None:
                s = scale
                if isinstance(s, Quantity):
                    s = s.to_value(b.unit if isinstance(b, Quantity) else u.dimensionless_unscaled)
                tol = tol + rtol * np.abs(np.asarray(s, dtype=float))
            ok = (np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) <= tol)) | (x == y) | (np.isnan(x) & np.isnan(y))
        if not np.all(ok):
            i = np.argwhere(~np.atleast_1d(ok))[0]
            self.fail(label, "got %r, expected %r (relative tolerance %g) at index %s"
                      % (np.atleast_1d(x)[tuple(i)], np.atleast_1d(y)[tuple(i)], rtol, tuple(int(k) for k in i)))

    # function library shared with the symbolic mode
    def jv(self, n, x):
        import scipy.special
        return scipy.special.jv(n, x)

    def quad(self, f, a, b):
        import scipy.integrate
        return scipy.integrate.quad(f, a, b, limit=200)[0]

    def flow(self, rhs, y0, dt, args=()):
        """solution at dt of the autonomous equation y' = rhs(y)"""
        import scipy.integrate
        if dt == 0:
            return y0
        r = scipy.integrate.solve_ivp(lambda t, y: [rhs(y[0])], (0.0, float(dt)), [float(y0)], method="LSODA",
                                      rtol=1e-10, atol=1e-13)
        return float(r.y[0, -1])

    def abstract_g(self):
        pass

    abstract_amp = abstract_g

    def g(self, n, e):
        from props import common
        if e == 0:
            return 1.0 if n == 2 else 0.0
        return common.g_ne(self, n, e)

    def amp(self, lat, lon, psi, inc):
        from props import common
        return common.amp_mod(self, lon, lat, psi, inc)

    def unknown(self, name, args, lo, hi):
        return _scramble([float(v) for v in args], lo, hi)

    def derivative(self, f, v):
        h = 1e-5 * min(abs(v), 1 - abs(v), 1.0)
        return (8 * (f(v + h) - f(v - h)) - (f(v + 2 * h) - f(v - 2 * h))) / (12 * h)

    def obj(self, x):
        """array of floats"""
        return np.asarray(x, dtype=float)


def _scramble(a, lo, hi):
    """some smooth function with values in (lo, hi), for concrete runs"""
    t = sum((k + 1.37) * math.log(abs(v) + 1e-30) for k, v in enumerate(a))
    r = 0.5 + 0.49 * math.sin(1.7 * t + 0.4)
    return lo * (hi / lo)**r if lo > 0 else lo + (hi - lo) * r


def _draw(rng, lo, hi, integer):
    if integer:
        return float(rng.randint(int(lo), int(hi)))
    if lo > 0 and hi / lo > 50:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)


# ------------------------------------------------------------------------------------------------------ symbolic
class Undecided:
    def __init__(self, label, why):
        self.label, self.why = label, why


def make_symctx():
    from . import sym, npx, smt, path as pathmod
    from .sym import Sym, Cond, Poly, TRUE, cnot, new_var

    class SymCtx(Base):
        symbolic = True

        def __init__(self, run, path, lw):
            super().__init__()
            self.run, self.path, self.lw = run, path, lw
            self.np = npx.NP
            self.math = npx.MATH
            self.tier = run.tier
            self.seq = 0
            self.chosen = []

        # ---- inputs
        def real(self, name, lo, hi, unit=None, shape=None, integer=False):
            if shape is None:
                v = new_var(name, lo, hi, integer)
                return v if unit is None else Quantity(_obj0(v), unit, copy=False)
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = new_var("%s[%s]" % (name, ",".join(map(str, i))), lo, hi, integer)
            return a if unit is None else Quantity(a, unit, copy=False)

        def choice(self, name, options):
            i = self.path.choice(len(options))
            self.chosen.append(i)
            self.choices[name] = repr(options[i])[:60]
            return options[i]

        def assume(self, c):
            if isinstance(c, np.ndarray):
                for x in c.reshape(-1):
                    self.path.assume(x if isinstance(x, Cond) else sym.as_cond(x))
            else:
                self.path.assume(c)

        def stub_np(self, name, fn):
            self._undo.append((_DictAttr(npx.OVERRIDES), name, npx.OVERRIDES.get(name, None), None))
            npx.OVERRIDES[name] = fn

        def undo(self):
            super().undo()

        # ---- assertions
        def count(self):
            self.run.n_checks += 1

        def fail(self, label, detail=""):
            key = (label, str(detail)[:80])
            self.run.structural(self, label, detail)

        def true(self, label, c, detail=""):
            for k, x in enumerate(_flat(c)):
                if isinstance(x, (bool, np.bool_)):
                    self.require(label, bool(x), detail)
                else:
                    self.run.obligation(self, label, sym.as_cond(x), None)

        def close(self, label, a, b, rtol=RTOL, scale=None):
            self.count()
            try:
                x, y = unit_align(a, b)
            except Fail as e:
                return self.fail(label, e.detail)
            x, y = _plain(x), _plain(y)
            if np.shape(x) != np.shape(y):
                return self.fail(label, "shape %r, expected %r" % (np.shape(x), np.shape(y)))
            for i, (p, q) in enumerate(zip(_flat(x), _flat(y))):
                p, q = sym._lift(p), sym._lift(q)
                if p is NotImplemented or q is NotImplemented:
                    return self.fail(label, "not numeric")
                if p.sp or q.sp:
                    if p.sp != q.sp:
                        self.fail(label, "got %s, expected %s" % (p, q))
                    continue
                d = sym.canon(sym.padd(p.p, q.p, -1.0, drop=False))
                self.run.obligation(self, label, Cond("close", d, (EPS,)), (p.p, q.p, rtol))

        # ---- functions
        def jv(self, n, x):
            return npx.jv(n, x)

        def quad(self, f, a, b):
            return npx.quad(f, a, b)[0] if (npx.has_sym(a) or npx.has_sym(b)) else npx.quad(f, sym._lift(a), sym._lift(b))[0]

        def flow(self, rhs, y0, dt, args=()):
            y0, dt = sym._lift(y0), sym._lift(dt)
            k = npx.func_id(lambda e: rhs(e))
            return npx.flow(k, y0, dt)

        # ---- abstractions justified by other properties (C03: peters_g; C05: amplitude_modulation)
        def g(self, n, e):
            n, e = sym._lift(n), sym._lift(e)
            if n.is_const() and e.is_const() and not e.sp and e.cval() == 0:
                return Sym.const(1.0 if n.cval() == 2 else 0.0)
            return sym.new_fn("gpow", (int(n.cval()) if n.is_const() else n, e), 0.0, 1e9)

        def amp(self, lat, lon, psi, inc):
            return sym.new_fn("ampmod", (lat, lon, psi, inc), 0.0, 10.0)

        def abstract_g(self):
            def peters_g(n, e):
                if isinstance(n, Quantity):
                    n = n.to_value(u.dimensionless_unscaled)
                if isinstance(e, Quantity):
                    e = e.to_value(u.dimensionless_unscaled)
                if not npx.has_sym(n) and not npx.has_sym(e):
                    n, e = npx.objectify(np.asarray(n, dtype=float)), npx.objectify(np.asarray(e, dtype=float))
                return npx._broadcast_obj(self.g, n, e)
            self.replace(self.lw.utils.peters_g, peters_g)

        def abstract_amp(self):
            def amplitude_modulation(position, polarisation, inclination):
                vals = [q.to_value(u.rad) for q in (position.lat, position.lon, polarisation, inclination)]
                return npx._broadcast_obj(self.amp, *vals)
            self.replace(self.lw.strain.amplitude_modulation, amplitude_modulation)

        def unknown(self, name, args, lo, hi):
            """an arbitrary function of these numbers, the same one at every call"""
            sym.FN_EVAL.setdefault("unknown:" + name, lambda a: _scramble(a, lo, hi))
            return sym.new_fn("unknown:" + name, tuple(sym._lift(v) for v in args), lo, hi)

        def derivative(self, f, v):
            (m,) = v.p.t
            r = f(v)
            return Sym(sym.pdiff(r.p, m[0][0]))

        def obj(self, x):
            return npx.objectify(np.asarray(x)) if not (isinstance(x, np.ndarray) and x.dtype == object) else x

    def _obj0(v):
        a = np.empty((), dtype=object)
        a[()] = v
        return a

    def _plain(x):
        if isinstance(x, Quantity):
            return x.view(np.ndarray)
        return x

    def _flat(x):
        if isinstance(x, np.ndarray):
            return list(_plain(x).reshape(-1)) if x.shape else [x.item()]
        if isinstance(x, (list, tuple)):
            return list(x)
        return [x]

    def _ev_g(a):
        import scipy.special
        from props import common
        return common.g_ne(_NumX, a[0], a[1])

    class _NumX:
        np = np

        @staticmethod
        def jv(n, v):
            import scipy.special
            return scipy.special.jv(n, v)

    def _ev_amp(a):
        from props import common
        return common.amp_mod(_NumX, a[1], a[0], a[2], a[3])
    sym.FN_EVAL["gpow"] = _ev_g
    sym.FN_EVAL["ampmod"] = _ev_amp

    class Run:
        """one scenario, symbolically"""

        def __init__(self, scn, lw, seed, tier, seconds):
            self.scn, self.lw, self.seed, self.tier = scn, lw, seed, tier
            self.deadline = time.time() + seconds
            self.n_checks = 0
            self.n_obl = 0
            self.n_proved = 0
            self.cache = {}
            self.candidates = []
            self.cand_count = {}
            self.undecided = []
            self.witnesses = []
            self.errors = []
            self.proof_kinds = {}
            self.t_nra = 8000 if tier == "quick" else 30000

        # ---- candidate points
        def points(self, path, extra=(), n=3):
            """input values satisfying the path (and the extra conditions)"""
            conds = list(path.conds) + list(extra)
            out = []
            for s in path.get_samples():
                if all(path._holds(c, dict(s)) for c in extra):
                    out.append({a.name: s[a.id] for a in sym.TABLE.vars.values() if a.id in s})
                    if len(out) >= n:
                        return out
            for st in ("nra",):
                r, enc, model = smt.check(conds, st, self.t_nra if extra else 3000, path.bounds, want_model=True)
                if r == "sat":
                    out.append(smt.model_values(enc, model))
                    return out
            return out + climb(conds, self.seed, n)

        def structural(self, x, label, detail):
            pts = self.points(x.path)
            if not pts:
                self.undecided.append((label, "structural: %s (no input found for the path)" % detail, dict(x.choices)))
                return
            self.add_candidates(x, label, pts, detail)

        def add_candidates(self, x, label, pts, detail):
            k = self.cand_count.get(label, 0)
            self.cand_count[label] = k + 1
            if k >= 4:
                return
            for p in pts:
                self.candidates.append({"label": label, "values": p, "choices": list(x.chosen), "shown": dict(x.choices),
                                        "detail": str(detail)[:400]})

        def obligation(self, x, label, cond, num):
            path = x.path
            x.seq += 1
            key = (tuple(v for _, v, _ in path.decisions), x.seq, label)
            if key in self.cache:
                return
            self.cache[key] = True
            self.n_obl += 1
            cond = sym.factor_cond(cond)
            neg = cnot(cond)
            if neg.op == "false":
                # decided by constant evaluation: nothing symbolic left
                self.n_proved += 1
                self.proof_kinds["constant"] = self.proof_kinds.get("constant", 0) + 1
                return
            if time.time() > self.deadline:
                raise pathmod.Budget("time budget exceeded")
            # quick numeric refutation first (saves solver time on broken code)
            bad = self.numeric_bad(path, cond, num)
            if bad:
                self.add_candidates(x, label, bad, "assertion fails on sampled inputs of this path")
                return
            for st, cs, t in (("lin", [neg], 1500), ("lin", path.conds + [neg], 2000), ("nra", [neg], 1500),
                              ("nra", path.conds + [neg], self.t_nra)):
                r, enc, model = smt.check(cs, st, t, path.bounds, want_model=True)
                if r == "unsat":
                    self.n_proved += 1
                    self.proof_kinds[st] = self.proof_kinds.get(st, 0) + 1
                    return
            pts = []
            if r == "sat":
                pts = [smt.model_values(enc, model)]
            pts += self.points(path, (), 2)
            pts += climb(path.conds, self.seed + 1, 4, neg if cond.op != "close" else None, pts[0] if r == "sat" else None)
            if pts:
                self.add_candidates(x, label, pts, "solver answer %s" % r)
            self.undecided.append((label, "solver answer %s for %s" % (r, repr(cond)[:300]), dict(x.choices)))

        def numeric_bad(self, path, cond, num):
            out = []
            for s in path.get_samples()[:60]:
                env = dict(s)
                try:
                    npx.EVAL_ENV[0] = env
                    if num is not None:
                        a, b = sym.eval_poly(num[0], env), sym.eval_poly(num[1], env)
                        mag = max(abs(a), abs(b))
                        d = abs(sym.eval_poly(cond.p, env))
                        bad = d > 3 * num[2] * mag and d > 0 and d > 1e-9 * sym.eval_mag(cond.p, env)
                    else:
                        bad = sym.eval_cond_tol(cond, env) is False
                except (sym.NoValue, OverflowError, ZeroDivisionError, ValueError):
                    continue
                if bad:
                    out.append({a.name: s[a.id] for a in sym.TABLE.vars.values() if a.id in s})
                    if len(out) >= 3:
                        break
            return out

        # ---- execution
        def go(self):
            sym.TABLE.reset()
            npx.FUNCS.clear()
            npx.OVERRIDES.clear()
            state = State(self.lw)
            ex = pathmod.Explorer(seed=self.seed, max_paths=self.scn.max_paths, deadline=self.deadline,
                                  n_samples=300)
            self.ex = ex

            def one(path):
                x = SymCtx(self, path, self.lw)
                state.restore()
                try:
                    self.scn.fn(x)
                except sym.EngineLimit as e:
                    self.undecided.append(("engine", "EngineLimit: %s @ %s" % (e, where()), dict(x.choices)))
                except Exception as e:          # raised by the code under test
                    self.structural(x, "exception", "%s: %s @ %s" % (type(e).__name__, e, where()))
                finally:
                    x.undo()
                return ("done", x)

            try:
                for path, (kind, x) in ex.run(one):
                    if kind == "abort":
                        continue
                    if len(self.witnesses) < 40:
                        s = path.get_samples()
                        if s:
                            self.witnesses.append({"values": {a.name: s[0][a.id] for a in sym.TABLE.vars.values() if a.id in s[0]},
                                                   "choices": list(x.chosen), "shown": dict(x.choices)})
                        elif not path.conds:
                            self.witnesses.append({"values": {}, "choices": list(x.chosen), "shown": dict(x.choices)})
            except pathmod.Budget as e:
                self.undecided.append(("budget", str(e), {}))
            if ex.n_paths == 0:
                self.undecided.append(("vacuous", "no feasible path", {}))
            return {"scenario": self.scn.name, "bounds": self.scn.bounds, "paths": ex.n_paths, "forks": ex.forks,
                    "checks": self.n_checks, "obligations": self.n_obl, "proved": self.n_proved, "kinds": self.proof_kinds,
                    "candidates": self.candidates[:24], "undecided": self.undecided[:40], "n_undecided": len(self.undecided),
                    "witnesses": thin(self.witnesses, 8), "queries": smt.STATS["queries"], "solver_s": smt.STATS["time"],
                    "notes": sorted(ex.notes), "dump": thin(smt.DUMP, 40)}

    def climb(conds, seed, n, extra=None, start=None):
        """random search for inputs satisfying conditions the solver could not; or, starting from the values of a solver
        model, one whose uninterpreted functions have their replay values"""
        rng = random.Random(seed)
        vs = list(sym.TABLE.vars.values())
        conds = list(conds) + ([extra] if extra is not None else [])
        if not conds or not vs:
            return []

        def score(env):
            e = dict(env)
            k = 0
            for c in conds:
                try:
                    k += bool(sym.eval_cond(c, e)) if c.op != "close" else 1
                except (sym.NoValue, OverflowError, ZeroDivisionError, ValueError):
                    pass
            return k
        out = []
        t0 = time.time()
        for k in range(40):
            env = {a.id: pathmod.draw(rng, a) for a in vs}
            if start and k % 2 == 0:
                env.update((a.id, start[a.name]) for a in vs if a.name in start)
            best = score(env)
            for _ in range(60):
                if best == len(conds):
                    break
                e2 = dict(env)
                a = rng.choice(vs)
                e2[a.id] = pathmod.draw(rng, a)
                s = score(e2)
                if s >= best:
                    env, best = e2, s
            if best == len(conds):
                out.append({a.name: env[a.id] for a in vs})
                if len(out) >= n:
                    break
            if time.time() - t0 > 5:
                break
        return out

    return SymCtx, Run


class _DictAttr:
    """lets Base.undo treat a dict like an object"""

    def __init__(self, d):
        object.__setattr__(self, "d", d)

    def __setattr__(self, k, v):
        if v is None:
            self.d.pop(k, None)
        else:
            self.d[k] = v


def thin(lst, n):
    if len(lst) <= n:
        return lst
    step = len(lst) / n
    return [lst[int(i * step)] for i in range(n)]


def stub_trouble(e, inside=False):
    """a stand-in of the harness was called in a way it cannot interpret (an optional argument it reads is missing): no verdict"""
    if not isinstance(e, (TypeError, AttributeError, KeyError)) or "None" not in str(e):
        return False
    fr = traceback.extract_tb(e.__traceback__)
    return "/props/" in fr[-1].filename and (inside or any("/legwork/" in f.filename for f in fr[:-1]))


def genuine_or(real, stub):
    """the stand-in; when it cannot interpret a call, the real function decides whether the call is an error"""
    @functools.wraps(stub)
    def call(*a, **k):
        try:
            return stub(*a, **k)
        except Exception as e:
            if stub_trouble(e, inside=True):
                real(*a, **k)
            raise
    return call


def where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    fr = [f for f in tb if "/legwork/" in f.filename] or list(tb)
    f = fr[-1]
    last = tb[-1]
    return "%s:%s (%s)%s" % (os.path.basename(f.filename), f.lineno, f.line,
                             "" if f is last else " <- %s:%s %s" % (os.path.basename(last.filename), last.lineno, last.line))


# ------------------------------------------------------------------------------------------------------ module state
class State:
    """restores mutable module-level state of the package between paths (paths must be independent)"""

    def __init__(self, lw):
        self.mods = [m for k, m in sys.modules.items() if k == "legwork" or k.startswith("legwork.")]
        self.saved = []
        self.caches = []
        seen = set()
        for m in self.mods:
            names = dict(m.__dict__)
            self.saved.append((m.__dict__, names, {k: _cp(v) for k, v in names.items() if _mutable(v) and not k.startswith("__")}))
            for v in list(names.values()):
                self._defaults(v, m, seen)

    def _defaults(self, v, m, seen):
        if id(v) in seen:
            return
        seen.add(id(v))
        if hasattr(v, "cache_clear"):
            self.caches.append(v)
        w = getattr(v, "__wrapped__", None)
        if w is not None:
            self._defaults(w, m, seen)
        if isinstance(v, types.FunctionType):
            if v.__module__ and v.__module__.startswith("legwork"):
                for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                    if _mutable(d):
                        self.saved.append((d, None, _cp(d)))
                if v.__dict__:
                    self.saved.append((v.__dict__, dict(v.__dict__), {k: _cp(x) for k, x in v.__dict__.items() if _mutable(x)}))
        elif isinstance(v, type) and getattr(v, "__module__", "").startswith("legwork"):
            for k, x in list(v.__dict__.items()):
                f = getattr(x, "__func__", x)
                self._defaults(f, m, seen)
                if _mutable(x) and not k.startswith("__"):
                    self.saved.append((x, None, _cp(x)))

    def restore(self):
        for target, names, vals in self.saved:
            if names is None:
                _refill(target, vals)
            else:
                for k in list(target):
                    if k not in names:
                        del target[k]
                for k, v in names.items():
                    if target.get(k, self) is not v:
                        target[k] = v
                for k, v in vals.items():
                    _refill(target[k], v)
        for c in self.caches:
            c.cache_clear()


def _mutable(v):
    return type(v) in (dict, list, set)


def _cp(v):
    return v.copy()


def _refill(t, v):
    if isinstance(t, list):
        t[:] = v
    elif isinstance(t, dict):
        t.clear()
        t.update(v)
    elif isinstance(t, set):
        t.clear()
        t |= v
