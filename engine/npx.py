"""numpy / scipy / builtins as seen by the LEGWORK sources while they run symbolically."""
import builtins
import math
import numbers
import types

import numpy as np

from . import sym
from .sym import Sym, Cond, Poly, EngineLimit, NAN, PINF, TRUE, FALSE, pconst, new_fn

from astropy import units as u
from astropy.units import Quantity

ACTIVE = [True]


# ------------------------------------------------------------------------------------------------ helpers
def has_sym(x):
    if isinstance(x, (Sym, Cond)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        raw = x.view(np.ndarray)
        return any(isinstance(v, (Sym, Cond)) or (isinstance(v, np.ndarray) and v.ndim and has_sym(v)) for v in raw.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def symmed(x):
    """object arrays contain only Sym (python floats would break numpy's object loops)"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        raw = x.view(np.ndarray) if isinstance(x, Quantity) else x
        bad = False
        for v in raw.flat:
            if not isinstance(v, Sym):
                bad = True
                break
        if bad:
            out = np.empty(raw.shape, dtype=object)
            of, rf = out.reshape(-1), raw.reshape(-1)
            for i in range(rf.size):
                v = rf[i]
                of[i] = v if isinstance(v, Sym) else (Sym.const(v) if isinstance(v, numbers.Real) else v)
            out = of.reshape(raw.shape)
            if isinstance(x, Quantity):
                q = out.view(type(x))
                q._set_unit(x.unit)
                return q
            return out
    return x


def objectify(x):
    """float array -> object array of constants (so that symbolic values can be stored in it)"""
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        raw = x.view(np.ndarray)
        out = np.empty(raw.shape, dtype=object)
        of = out.reshape(-1)
        rf = raw.reshape(-1)
        for i in range(rf.size):
            of[i] = Sym.const(rf[i])
        out = of.reshape(raw.shape)
        if isinstance(x, Quantity):
            q = out.view(type(x))
            q._set_unit(x.unit)
            return q
        return out
    return x


def _san_in(a):
    if isinstance(a, np.ndarray):
        return symmed(a)
    if isinstance(a, tuple):
        return tuple(_san_in(x) for x in a)
    if isinstance(a, list) and any(isinstance(x, np.ndarray) for x in a):
        return [_san_in(x) for x in a]
    return a


def _san_out(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object and r.shape == () and type(r) is np.ndarray and isinstance(r.item(), (Sym, Cond, float)):
            return r.item()
        return symmed(r)
    if isinstance(r, tuple):
        return tuple(_san_out(x) for x in r)
    if isinstance(r, list):
        return [_san_out(x) for x in r]
    return r


def astype(x, dtype, *a, **k):
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        if dtype in (float, np.float64, "float", "float64", object, np.float32):
            return x.copy()
        if dtype in (int, np.int64, "int", "int64", np.intp, np.int32):
            flat = [v for v in x.reshape(-1)]
            if any(isinstance(v, Sym) and _wide_integer(v) for v in flat):
                return x.copy()       # already whole numbers: kept symbolic
            vals = []
            for v in flat:
                if isinstance(v, Sym) and not v.is_const():
                    vals.append(_concretise_int(v))
                else:
                    vals.append(int(v))
            return np.array(vals, dtype=int).reshape(x.shape)
        if dtype in (bool, np.bool_):
            return np.array([bool(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return x.astype(dtype, *a, **k)


def _wide_integer(v):
    """a whole number by construction, with many possible values"""
    if v.sp or v.is_const():
        return False
    lo, hi = sym.poly_interval(v.p)
    if not hi - lo > 8:
        return False
    for m, (c, g) in v.p.t.items():
        if c != round(c) or any(q != 1 or not sym.TABLE.atoms[a].integer for a, q in m):
            return False
    return True


def _concretise_int(v):
    """an integer-valued symbolic: fork over its possible values"""
    lo, hi = sym.poly_interval(v.p)
    if not (hi - lo <= 64):
        raise EngineLimit("integer range too wide")
    k = math.floor(lo)
    while k < hi:
        if bool(v < k + 1):
            return int(k)
        k += 1
    return int(k)


# ------------------------------------------------------------------------------------------------ numpy proxy
class Wrapped:
    """a numpy function that accepts symbolic arrays"""

    def __init__(self, f, special=None, creation=False):
        self._f, self._special, self._creation = f, special, creation
        self.__name__ = getattr(f, "__name__", "f")
        self.__doc__ = None

    def __call__(self, *a, **k):
        if self._special is not None:
            r = self._special(*a, **k)
            if r is not NotImplemented:
                return r
        if len(a) == 1 and isinstance(a[0], Sym) and hasattr(Sym, self.__name__) and not k:
            return getattr(a[0], self.__name__)()
        a = tuple(_san_in(x) for x in a)
        k = {kk: _san_in(v) for kk, v in k.items()}
        r = _san_out(self._f(*a, **k))
        if self._creation and ACTIVE[0]:
            dt = k.get("dtype")
            if dt is None or dt in (float, np.float64, object):
                r = objectify(r)
        return r

    def __getattr__(self, n):
        return getattr(self._f, n)


def _elementwise(fn):
    def f(x, *a, **k):
        if isinstance(x, Sym):
            return fn(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            raw = x.view(np.ndarray)
            return np.array([fn(v) for v in raw.reshape(-1)], dtype=bool).reshape(raw.shape)
        return NotImplemented
    return f


def _isnan(v):
    return v.isnan() if isinstance(v, Sym) else bool(np.isnan(v))


def _isfinite(v):
    return v.isfinite() if isinstance(v, Sym) else bool(np.isfinite(v))


def _isinf(v):
    return (v.sp in ("inf", "-inf")) if isinstance(v, Sym) else bool(np.isinf(v))


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if isinstance(x, np.ndarray) and x.dtype == object:
        raw = x.view(np.ndarray)
        out = np.empty(raw.size, dtype=object)
        for i, v in enumerate(raw.reshape(-1)):
            if _isnan(v):
                v = Sym.const(nan)
            elif isinstance(v, Sym) and v.sp == "inf":
                v = Sym.const(posinf if posinf is not None else np.finfo(float).max)
            elif isinstance(v, Sym) and v.sp == "-inf":
                v = Sym.const(neginf if neginf is not None else -np.finfo(float).max)
            out[i] = v
        out = out.reshape(raw.shape)
        if isinstance(x, Quantity):
            return out * x.unit
        return out
    return NotImplemented


def _array(x, *a, **k):
    dt = k.get("dtype", a[0] if a else None)
    if has_sym(x):
        if dt is not None and dt in (float, np.float64, "float"):
            k = dict(k)
            k["dtype"] = object
            a = a[1:]
        elif dt in (int, np.int64):
            return astype(np.array(x, dtype=object), int)
        if isinstance(x, Sym):
            k.setdefault("dtype", object)
        return symmed(np.array(x, *a, **k))
    return NotImplemented


def _asarray(x, *a, **k):
    if isinstance(x, Quantity):
        if x.dtype == object:
            return symmed(x.view(np.ndarray))
        return NotImplemented
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return _array(x, *a, **k)


def _asanyarray(x, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return _array(x, *a, **k)


def _zeros_like(val):
    def f(a, dtype=None, *r, **k):
        if dtype is not None and dtype not in (float, np.float64, object):
            return NotImplemented
        if isinstance(a, Sym):
            return Sym.const(val)
        if isinstance(a, np.ndarray) and (a.dtype == object or a.dtype.kind == "f"):
            raw = a.view(np.ndarray)
            out = np.empty(raw.shape, dtype=object)
            for i in range(out.size):
                out.reshape(-1)[i] = Sym.const(val)
            if out.shape == ():
                out = np.array(Sym.const(val), dtype=object)
            if isinstance(a, Quantity):
                return Quantity(out, a.unit) if out.size else out * a.unit
            return out
        return NotImplemented
    return f


def _full_like(a, fill_value, dtype=None, **k):
    if isinstance(a, np.ndarray) and (a.dtype == object or a.dtype.kind == "f"):
        out = _zeros_like(0.0)(a)
        out[...] = fill_value
        return symmed(out)
    return NotImplemented


def _where(c, *a):
    if not a:
        return np.where(np.asarray(c, dtype=bool)) if has_sym(c) else NotImplemented
    if has_sym(c):
        if isinstance(c, (Sym, Cond)):
            c = bool(c)
        else:
            c = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    a = tuple(objectify(np.asanyarray(x)) if (isinstance(x, np.ndarray) and x.dtype.kind == "f" and any(has_sym(y) for y in a))
              else x for x in a)
    return _san_out(np.where(c, *[_san_in(x) for x in a]))


def _mk_logical(npf):
    def f(*a, **k):
        if not any(has_sym(x) for x in a):
            return NotImplemented
        r = npf(*[_san_in(x) for x in a], **k)
        return np.bool_(bool(r)) if isinstance(r, (Sym, Cond)) else _boolarr(r)
    return f


def _boolarr(x):
    if isinstance(x, (Sym, Cond)):
        return bool(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([bool(v) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return x


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return NotImplemented
    d = abs(np.asanyarray(a) - np.asanyarray(b))
    return d <= (atol + rtol * abs(np.asanyarray(b)))


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return NotImplemented if r is NotImplemented else bool(np.all(r))


def _median(x, *a, **k):
    return NotImplemented


SPECIAL = {
    "isnan": _elementwise(_isnan), "isfinite": _elementwise(_isfinite), "isinf": _elementwise(_isinf),
    "nan_to_num": _nan_to_num, "array": _array, "asarray": _asarray, "asanyarray": _asanyarray,
    "zeros_like": _zeros_like(0.0), "ones_like": _zeros_like(1.0), "empty_like": _zeros_like(0.0),
    "full_like": _full_like, "where": _where,
    "isclose": _isclose, "allclose": _allclose,
    "logical_and": _mk_logical(np.logical_and), "logical_or": _mk_logical(np.logical_or),
}
CREATION = {"zeros", "ones", "empty", "full", "repeat", "tile"}
PASS_TYPES = (type,)


class NumpyProxy(types.ModuleType):
    def __init__(self, real=np, overrides=None):
        super().__init__("numpy")
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}
        self.__dict__["_over"] = overrides if overrides is not None else {}

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        c = self._cache.get(name)
        if c is not None:
            return c
        r = getattr(self._real, name)
        if isinstance(r, (type, types.ModuleType)) or not callable(r):
            return r
        w = Wrapped(r, SPECIAL.get(name), name in CREATION)
        self._cache[name] = w
        return w


OVERRIDES = {}           # scenario-level replacements for numpy functions (load, random, ...)
NP = NumpyProxy(np, OVERRIDES)


class MathProxy(types.ModuleType):
    def __getattr__(self, name):
        r = getattr(math, name)
        if not callable(r):
            return r

        def f(*a):
            if any(isinstance(x, Sym) for x in a):
                if name == "pow":
                    return a[0] ** a[1]
                return getattr(a[0], {"acos": "arccos", "asin": "arcsin"}.get(name, name))(*a[1:])
            return r(*a)
        return f


MATH = MathProxy("math")


# ------------------------------------------------------------------------------------------------ builtins
def sx_isinstance(o, t):
    if builtins.isinstance(o, Sym):
        if builtins.isinstance(1.0, t):
            return True
    return builtins.isinstance(o, t)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, float) or builtins.isinstance(o, Sym)


def sx_float(x=0.0):
    if builtins.isinstance(x, Sym):
        return x
    if builtins.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return float(x)


SHADOW = {"isinstance": sx_isinstance}


# ------------------------------------------------------------------------------------------------ scipy
def jv_scalar(n, x):
    if not isinstance(n, Sym) and not isinstance(x, Sym):
        import scipy.special
        return scipy.special.jv(n, x)
    n = sym._lift(n)
    x = sym._lift(x)
    if n.is_const():
        k = n.cval()
        if k == int(k):
            k = int(k)
            sgn = 1.0
            if k < 0:
                k = -k
                sgn = -1.0 if k % 2 else 1.0
            if x.is_const():
                import scipy.special
                return Sym.const(sgn * scipy.special.jv(k, x.cval()))
            # at 0 the value is known exactly
            if sym._is_zero(x.p):
                return Sym.const(sgn if k == 0 else 0.0)
            return new_fn("jv", (k, x), -1.0, 1.0) * sgn
    return new_fn("jv", (n, x), -1.0, 1.0)


def _broadcast_obj(fn, *arrs):
    arrs = [np.asarray(a.view(np.ndarray) if isinstance(a, Quantity) else a,
                       dtype=object if has_sym(a) else None) for a in arrs]
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    of = out.reshape(-1)
    for i, vals in enumerate(b):
        of[i] = fn(*vals)
    out = of.reshape(b.shape)
    return out.item() if out.shape == () else out


def jv(n, x):
    if has_sym(n) or has_sym(x):
        if isinstance(x, Quantity):
            x = x.to_value(u.one)
        return _broadcast_obj(jv_scalar, n, x)
    import scipy.special
    return scipy.special.jv(n, x)


def _eval_jv(a):
    import scipy.special
    k = a[0]
    return float(scipy.special.jv(k, a[1]))


sym.FN_EVAL["jv"] = _eval_jv

_BOUND = {}


def bound_var(i, lo, hi):
    """bound variable for integrands / right-hand sides"""
    return sym.new_var("_b%d" % i, lo, hi)


FUNCS = {}          # id -> canonical polynomial of a one-variable function body


def func_id(fn, args=(), lo=1e-6, hi=0.999999):
    """canonical identity of  x -> fn(x, *args)  (functions equal up to rounding get the same id)"""
    b = bound_var(0, lo, hi)
    r = fn(b, *args)
    if isinstance(r, np.ndarray):
        r = r.reshape(-1)[0] if r.size == 1 else r
    if isinstance(r, Quantity):
        r = r.value
    r = sym._lift(r)
    if r is NotImplemented or r.sp:
        raise EngineLimit("integrand not representable")
    p = sym.canon(r.p)
    p = Poly({m: v for m, v in p.t.items() if abs(v[0]) > sym.DROP * v[1]})
    for k, q in FUNCS.items():
        if sym.same(p, q):
            return k
        d = sym.canon(sym.padd(p, q, -1.0))
        if all(abs(c) <= sym.CLOSE * g for c, g in d.t.values()):
            return k
    k = len(FUNCS)
    FUNCS[k] = p
    return k


def quad(f, a, b, args=(), **kw):
    if not has_sym(a) and not has_sym(b) and not has_sym(args):
        import scipy.integrate
        return scipy.integrate.quad(f, a, b, args=args, **kw)
    if not isinstance(args, tuple):
        args = (args,)
    k = func_id(f, args)
    a, b = sym._lift(a), sym._lift(b)
    # the integral of an integrand that is positive on (0, 1) is positive for a < b; additivity is not used
    lo = -sym.INF
    bid = sym.TABLE.vars["_b0"].id
    try:
        env = EVAL_ENV[0] or {}
        if all(sym.eval_poly(FUNCS[k], {**env, bid: i / 1000 - 5e-4}) > 0 for i in range(1, 1001)):
            d = sym.canon((b - a).p)
            if sym.poly_interval(d)[0] >= 0:
                lo = 1e-300
    except Exception:  # noqa: the sign stays unknown
        pass
    v = new_fn("quad", (k, a, b), lo, sym.INF)
    return (v, Sym.const(0.0))


def _eval_quad(a):
    import scipy.integrate
    p = FUNCS[a[0]]
    bid = sym.TABLE.vars["_b0"].id

    def f(x):
        return sym.eval_poly(p, {**(EVAL_ENV[0] or {}), bid: x})
    return scipy.integrate.quad(f, a[1], a[2])[0]


EVAL_ENV = [None]


def odeint(func, y0, t, args=(), **kw):
    """flow of a scalar autonomous equation: value at each time is a function of (equation, y0, t - t0)"""
    t = list(np.asarray(t, dtype=object).reshape(-1)) if isinstance(t, (list, np.ndarray)) else [t]
    if not has_sym(t) and not has_sym(y0) and not has_sym(args):
        import scipy.integrate
        return scipy.integrate.odeint(func, y0, t, args=args, **kw)
    if not isinstance(args, tuple):
        args = (args,)
    if isinstance(y0, Quantity):
        y0 = y0.to_value(u.one)
    if isinstance(y0, np.ndarray):
        y0 = y0.reshape(-1)[0]
    y0 = sym._lift(y0)
    tb = sym.new_var("_t0", 0.0, 1e20)
    k = func_id(lambda e: func(e, tb, *args))
    out = [y0]
    for x in t[1:]:
        out.append(flow(k, y0, sym._lift(x) - sym._lift(t[0])))
    r = np.empty((len(out), 1), dtype=object)
    for i, v in enumerate(out):
        r[i, 0] = v
    return r


FLOW_NAME = "flow"


def flow(k, y0, dt):
    if dt.is_const() and dt.cval() == 0:
        return y0
    lo, hi = sym._static_interval(y0.p)
    # Peters: eccentricity decreases and stays positive before merger (the claim is conditional on it)
    return new_fn(FLOW_NAME, (k, y0, dt), 1e-9, hi)


def _flow_axioms(enc, atoms):
    out = []
    for a in atoms:
        y0 = enc.poly(a.args[1])
        dt = enc.poly(a.args[2])
        v = enc.vars[a.id]
        import z3
        out.append(z3.Implies(dt >= 0, v <= y0))
        out.append(z3.Implies(dt <= 0, v >= y0))
    for i in range(len(atoms)):
        for j in range(i):
            x, y = atoms[i], atoms[j]
            if x.args[0] == y.args[0] and sym.same(x.args[1], y.args[1]):
                out.append((enc.poly(x.args[2]) <= enc.poly(y.args[2])) == (enc.vars[x.id] >= enc.vars[y.id]))
    return out


from . import smt as _smt
_smt.PAIR_AXIOMS[FLOW_NAME] = _flow_axioms


def no_jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


from .pools import SerialPool        # noqa: E402


class Spline:
    """an interpolating spline: identity of its table up to a common factor of the abscissae, and that factor"""

    def __init__(self, x0, key):
        self.x0, self.key = x0, key


SPLINES = []         # (normalised abscissae, ordinates, extra arguments)


def _flat_list(x):
    x = np.asarray(x.view(np.ndarray) if isinstance(x, Quantity) else x)
    return list(x.reshape(-1))


def splrep(x, y, *a, **k):
    xs, ys = _flat_list(x), _flat_list(y)
    if has_sym(ys):
        ys = [sym._lift(v) for v in ys]
        if not all(v.is_const() for v in ys):
            raise EngineLimit("spline through symbolic ordinates")
        ys = [v.cval() for v in ys]
    x0 = sym._lift(xs[-1])
    if x0.is_const():
        xs = [v.cval() if isinstance(v, Sym) else float(v) for v in xs]
        norm = np.array(xs) / x0.cval()
    else:
        inv = 1 / x0
        norm = [sym._lift(v) * inv for v in xs]
        if not all(v.is_const() for v in norm):
            raise EngineLimit("spline through an irregular symbolic table")
        norm = np.array([v.cval() for v in norm])
    extra = repr((a[1:] if a else (), sorted((kk, v) for kk, v in k.items() if kk != "s"), k.get("s", a[5] if len(a) > 5 else None)))
    ys = np.array(ys, dtype=float)
    for i, (p, q, ex) in enumerate(SPLINES):
        if p.shape == norm.shape and ex == extra and np.allclose(p, norm, rtol=1e-9, atol=0) and np.allclose(q, ys, rtol=1e-9, atol=0):
            return Spline(x0, i)
    SPLINES.append((norm, ys, extra))
    return Spline(x0, len(SPLINES) - 1)


def splev(x, tck, der=0, ext=0):
    import scipy.interpolate
    if not isinstance(tck, Spline):
        if has_sym(x):
            raise EngineLimit("evaluation of a spline built elsewhere")
        return scipy.interpolate.splev(x, tck, der=der, ext=ext)
    if der != 0 or ext != 0:
        raise EngineLimit("spline derivative or extrapolation mode")
    ys = SPLINES[tck.key][1]
    lo, hi = float(ys.min()), float(ys.max())
    lo = lo / 2 if lo > 0 else -sym.INF

    def one(v):
        arg = sym._lift(v) / tck.x0
        # inside its table the curve stays near the ordinates; past the end nothing is known about it
        if sym._lift(v) <= tck.x0:
            return new_fn("spline", (tck.key, arg), lo, 2 * hi)
        return new_fn("spline_out", (tck.key, arg))
    if isinstance(x, Quantity):
        x = x.to_value(u.one)
    if isinstance(x, Sym):
        return one(x)
    return _broadcast_obj(one, objectify(np.asarray(x)) if np.asarray(x).dtype != object else np.asarray(x))


_TCK = {}


def _eval_spline(a):
    import scipy.interpolate
    if a[0] not in _TCK:
        x, y, ex = SPLINES[a[0]]
        _TCK[a[0]] = scipy.interpolate.splrep(x, y, s=0)
    return float(scipy.interpolate.splev(a[1], _TCK[a[0]]))


sym.FN_EVAL["spline"] = sym.FN_EVAL["spline_out"] = _eval_spline


TABLES = []          # (x, y) of the piecewise-linear tables too long to split into cases


class interp1d:
    """scipy.interpolate.interp1d (linear): exact case distinction for short tables, a bounded function of the argument
    between the tabulated extremes for long ones"""
    SPLIT = 40

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        import scipy.interpolate
        self.real = None
        xs, ys = (np.asarray(v.view(np.ndarray) if isinstance(v, Quantity) else v) for v in (x, y))
        if not has_sym(xs) and not has_sym(ys):
            xs, ys = xs.astype(float), ys.astype(float)
            self.real = scipy.interpolate.interp1d(xs, ys, kind=kind, axis=axis, copy=copy, bounds_error=bounds_error,
                                                   fill_value=fill_value, assume_sorted=assume_sorted)
        if has_sym(fill_value):
            raise EngineLimit("symbolic fill value")
        if kind != "linear" or xs.ndim != 1 or ys.ndim != 1 or has_sym(xs):
            if self.real is None:
                raise EngineLimit("interpolation of this kind")
            self.usable = False
            return
        self.usable = True
        if len(xs) != len(ys):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        xs = np.array([sym._lift(v).cval() for v in xs]) if xs.dtype == object else xs
        o = np.argsort(xs, kind="mergesort")
        self.fill = fill_value
        self.bounds_error = (bounds_error is None and not isinstance(fill_value, tuple) and fill_value != "extrapolate"
                             and isinstance(fill_value, float) and math.isnan(fill_value)) or bool(bounds_error)
        self.key = None
        xs, ys = xs[o], ys[o]
        if len(xs) > self.SPLIT:
            if ys.dtype == object:
                ys = [sym._lift(v) for v in ys]
                if not all(v.is_const() for v in ys):
                    raise EngineLimit("long symbolic table")
                ys = np.array([v.cval() for v in ys])
            b = (ys[-1] - ys[0]) / (xs[-1] - xs[0])
            if np.all(np.abs(ys[0] + b * (xs - xs[0]) - ys) <= 1e-9 * np.abs(ys)):
                xs, ys = xs[[0, -1]], ys[[0, -1]]       # a straight line
            else:
                for k, (p, q) in enumerate(TABLES):
                    if np.array_equal(p, xs) and np.array_equal(q, ys):
                        self.key = k
                if self.key is None:
                    TABLES.append((xs, ys))
                    self.key = len(TABLES) - 1
                self.x = [float(xs[0]), float(xs[-1])]
                self.y = None
                return
        self.x = [float(v) for v in xs]
        self.y = [sym._lift(v if isinstance(v, Sym) else float(v)) for v in ys]

    def one(self, v):
        v = sym._lift(v)
        xs, ys = self.x, self.y
        for side, out in ((0, v < xs[0]), (1, v > xs[-1])):
            if out:
                if self.bounds_error:
                    raise ValueError("A value in x_new is outside the interpolation range.")
                if isinstance(self.fill, str):
                    raise EngineLimit("extrapolation")
                f = self.fill[side] if isinstance(self.fill, tuple) else self.fill
                return NAN if isinstance(f, float) and math.isnan(f) else sym._lift(f)
        if self.key is not None:
            lo, hi = float(TABLES[self.key][1].min()), float(TABLES[self.key][1].max())
            return new_fn("table", (self.key, v), lo, hi)
        lo, hi = 0, len(xs) - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if v < xs[mid]:
                hi = mid
            else:
                lo = mid
        if v.is_const() and v.cval() == xs[lo]:
            return ys[lo]
        return ys[lo] + (ys[hi] - ys[lo]) * ((v - xs[lo]) * (1.0 / (xs[hi] - xs[lo])))

    def __call__(self, v):
        if self.real is not None and not has_sym(v):
            return self.real(v)
        if not self.usable:
            raise EngineLimit("interpolation at a symbolic point")
        if isinstance(v, Quantity):
            v = v.view(np.ndarray) if v.ndim else v.value
        if isinstance(v, Sym):
            out = np.empty((), dtype=object)
            out[()] = self.one(v)
            return out
        a = np.asarray(v)
        return _broadcast_obj(self.one, a if a.dtype == object else objectify(a.astype(float)))


sym.FN_EVAL["table"] = lambda a: float(np.interp(a[1], *TABLES[a[0]]))


# ------------------------------------------------------------------------------------------------ instrumentation
def instrument(mod):
    """replace the numerics a module has imported by their symbolic counterparts"""
    import scipy.special
    import scipy.integrate
    d = mod.__dict__
    for name, val in list(d.items()):
        if name.startswith("__"):
            continue
        if val is np:
            d[name] = NP
        elif val is math:
            d[name] = MATH
        elif isinstance(val, types.ModuleType) and val.__name__ in ("scipy.special", "scipy.integrate", "scipy.interpolate", "scipy"):
            d[name] = ScipyProxy(val)
        elif val is scipy.special.jv or val is scipy.special.jn:
            d[name] = jv
        elif val is scipy.integrate.odeint:
            d[name] = odeint
        elif val is scipy.integrate.quad:
            d[name] = quad
        elif name in ("jit", "njit"):
            d[name] = no_jit
        elif name in ("MultiPool", "SerialPool", "Pool"):
            d[name] = SerialPool
        elif callable(val) and getattr(val, "__module__", "") == "numpy" and not isinstance(val, type):
            d[name] = getattr(NP, val.__name__)
        elif name == "splrep":
            d[name] = splrep
        elif name == "splev":
            d[name] = splev
        elif name == "interp1d":
            d[name] = interp1d


class ScipyProxy(types.ModuleType):
    MAP = {"jv": jv, "jn": jv, "odeint": odeint, "quad": quad, "splrep": splrep, "splev": splev, "interp1d": interp1d}

    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        if n in self.MAP:
            return self.MAP[n]
        r = getattr(self._real, n)
        if isinstance(r, types.ModuleType):
            return ScipyProxy(r)
        return r
