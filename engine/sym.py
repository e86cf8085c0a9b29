"""Symbolic reals used to execute the real LEGWORK code.

A value is a generalised polynomial: a sum of  coefficient * product(atom ** rational).  Atoms are input variables,
interned sums (for fractional / negative powers of sums), and applications of functions that are not polynomial
(cos, sin, exp, tanh, log, Bessel, integrals, ODE flows, stubs).  Comparisons create conditions; asking for the truth of
a condition forks the execution (see engine.path).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

INF = math.inf
DROP = 1e-11          # a coefficient this small relative to what was added up is cancellation noise
CLOSE = 1e-9          # relative closeness for interning


class EngineLimit(Exception):
    """The engine cannot represent an operation (never a verdict about the code)."""


# --------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "lo", "hi", "integer", "poly", "args", "meta")

    def __init__(self, kind, name, lo=-INF, hi=INF, integer=False, poly=None, args=(), meta=None):
        self.id = len(TABLE.atoms)
        TABLE.atoms.append(self)
        self.kind, self.name, self.lo, self.hi = kind, name, lo, hi
        self.integer, self.poly, self.args, self.meta = integer, poly, args, meta

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "sum":
            return "(" + repr(self.poly) + ")"
        return "%s(%s)" % (self.name, ", ".join(repr(a) for a in self.args))


class _Table:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.vars = {}
        self.sums = {}
        self.fns = {}
        self.factored = {}
        self.keys = {}
        self.n_keys = 0


TABLE = _Table()


class _Ctx:
    """Hook to the running path (bounds, forking); replaced by engine.path."""
    path = None


CTX = _Ctx()


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    f = Fraction(x).limit_denominator(10000)
    if abs(float(f) - x) <= 1e-13 * max(1.0, abs(x)):
        return f
    return Fraction(x)


def atom_bounds(a):
    p = CTX.path
    if p is not None:
        b = p.bounds.get(a.id)
        if b is not None:
            return b
    return a.lo, a.hi


# --------------------------------------------------------------------------------------------------- intervals
def _imul(a, b):
    (l1, h1), (l2, h2) = a, b
    ps = []
    for x in (l1, h1):
        for y in (l2, h2):
            ps.append(0.0 if (x == 0 or y == 0) else x * y)
    return min(ps), max(ps)


def _ipow1(x, q):
    if x == INF:
        return INF if q > 0 else 0.0
    if x == 0:
        return 0.0 if q > 0 else INF
    try:
        return float(x) ** float(q)
    except OverflowError:
        return INF


def ipow(lo, hi, q):
    if q == 0:
        return 1.0, 1.0
    if q.denominator == 1 and lo < 0:
        n = q.numerator
        if n > 0:
            def pw(x):
                try:
                    return x ** n
                except OverflowError:
                    return INF if (x > 0 or n % 2 == 0) else -INF
            if n % 2 == 0:
                m = max(abs(lo), abs(hi))
                return (0.0 if lo <= 0 <= hi else pw(min(abs(lo), abs(hi)))), pw(m)
            return pw(lo), pw(hi)
        if hi < 0:
            l, h = ipow(-hi, -lo, q)
            return (l, h) if n % 2 == 0 else (-h, -l)
        if n % 2 == 0:
            return 0.0, INF
        return -INF, INF
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if q > 0:
        return _ipow1(lo, q), _ipow1(hi, q)
    return _ipow1(hi, q), _ipow1(lo, q)


def mono_interval(m):
    iv = (1.0, 1.0)
    for aid, q in m:
        a = TABLE.atoms[aid]
        lo, hi = atom_bounds(a)
        iv = _imul(iv, ipow(lo, hi, q))
    return iv


def poly_interval(p):
    lo = hi = 0.0
    for m, (c, _) in p.t.items():
        l, h = _imul((c, c), mono_interval(m))
        lo += l
        hi += h
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    # a sum atom may have tighter path bounds
    return lo, hi


# --------------------------------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, (c, _) in list(self.t.items())[:8]:
            s = "%.6g" % c
            for aid, q in m:
                s += "*%r" % TABLE.atoms[aid] + ("" if q == 1 else "^%s" % q)
            out.append(s)
        return " + ".join(out) + (" + ..." if len(self.t) > 8 else "")

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t[()][0] if self.t else 0.0


ZERO = Poly({})


def pconst(c):
    c = float(c)
    return Poly({(): (c, abs(c))}) if c != 0 else ZERO


def pvar(atom):
    return Poly({((atom.id, Fraction(1)),): (1.0, 1.0)})


def padd(a, b, sb=1.0, drop=True):
    t = dict(a.t)
    for m, (c, g) in b.t.items():
        c = c * sb
        if m in t:
            c0, g0 = t[m]
            c1, g1 = c0 + c, g0 + g
            if drop and abs(c1) <= DROP * g1:
                del t[m]
            else:
                t[m] = (c1, g1)
        else:
            t[m] = (c, g)
    return Poly(t)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, q in m2:
        s = d.get(a, 0) + q
        if s == 0:
            d.pop(a, None)
        else:
            d[a] = s
    return tuple(sorted(d.items()))


def _reducible(m):
    for aid, q in m:
        a = TABLE.atoms[aid]
        if a.kind == "sum" and q >= 1:
            return aid, q
        if a.kind == "fn" and a.name == "sin" and q.denominator == 1 and q >= 2:
            return aid, q
        if a.kind == "fn" and a.name == "abs" and q.denominator == 1 and q >= 2:
            return aid, q
    return None


MAX_TERMS = 6000


def _addterm(t, m, c, g):
    r = _reducible(m)
    if r is None:
        if m in t:
            c0, g0 = t[m]
            c1, g1 = c0 + c, g0 + g
            if abs(c1) <= DROP * g1:
                del t[m]
            else:
                t[m] = (c1, g1)
        else:
            t[m] = (c, g)
        return
    aid, q = r
    a = TABLE.atoms[aid]
    d = dict(m)
    if a.kind == "sum":
        n = int(q)          # integer part
        if n > 12:
            if m in t:
                c0, g0 = t[m]
                t[m] = (c0 + c, g0 + g)
            else:
                t[m] = (c, g)
            return
        rest = q - n
        if rest == 0:
            d.pop(aid)
        else:
            d[aid] = rest
        repl = ppow_int(a.poly, n)
    elif a.name == "sin":
        k = int(q) // 2
        rest = q - 2 * k
        if rest == 0:
            d.pop(aid)
        else:
            d[aid] = rest
        cosa = a.meta
        repl = ppow_int(Poly({(): (1.0, 1.0), ((cosa, Fraction(2)),): (-1.0, 1.0)}), k)
    else:
        k = int(q) // 2
        rest = q - 2 * k
        if rest == 0:
            d.pop(aid)
        else:
            d[aid] = rest
        repl = ppow_int(a.args[0], 2 * k)
    m0 = tuple(sorted(d.items()))
    for m2, (c2, g2) in repl.t.items():
        _addterm(t, _mmul(m0, m2), c * c2, g * g2)


def pmul(a, b):
    if len(a.t) * len(b.t) > MAX_TERMS * 20:
        raise EngineLimit("polynomial too large")
    t = {}
    for m1, (c1, g1) in a.t.items():
        for m2, (c2, g2) in b.t.items():
            g = g1 * g2
            if not 1e-300 < g < 1e300:
                raise EngineLimit("coefficient out of range")
            _addterm(t, _mmul(m1, m2), c1 * c2, g)
    if len(t) > MAX_TERMS:
        raise EngineLimit("polynomial too large")
    if (len(a.t) == 1) != (len(b.t) == 1):
        return _reduced(a if len(a.t) == 1 else b, b if len(a.t) == 1 else a, t)
    return Poly(t)


def _reduced(mono, p, t):
    """the product t of a monomial and p, dividing p by the sums in the denominator of the monomial when they are factors"""
    if len(p.t) > 24:
        return Poly(t)
    (m, (c, g)), = mono.t.items()
    d = None
    for aid, q in m:
        if q > -1 or q.denominator != 1 or TABLE.atoms[aid].kind != "sum" or len(TABLE.atoms[aid].poly.t) > len(p.t):
            continue
        S = TABLE.atoms[aid].poly
        if all(c >= 0 for c, _ in S.t.values()):
            continue  # sums of positive terms only: the unreduced form is the one whose sign is recognised
        have = {x for k in p.t for x, _ in k}
        if not all(x in have for k in S.t for x, _ in k):
            continue
        while len(p.t) > 1 and (d or dict(m)).get(aid, Fraction(0)) <= -1:
            r = divide(p, S)
            if r is None:
                break
            d = d or dict(m)
            p = r
            d[aid] += 1
            if d[aid] == 0:
                del d[aid]
    if d is None:
        return Poly(t)
    return pmul(Poly({tuple(sorted(d.items())): (c, g)}), p)


def pscale(a, c):
    if c == 0:
        return ZERO
    k = abs(c)
    for _, g in a.t.values():
        if not 1e-300 < g * k < 1e300:
            raise EngineLimit("coefficient out of range")
    return Poly({m: (x * c, g * k) for m, (x, g) in a.t.items()})


def ppow_int(a, n):
    r = pconst(1.0)
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def same(a, b, rel=CLOSE):
    """Are two polynomials the same up to rounding (same monomials, close coefficients)?"""
    if len(a.t) != len(b.t):
        d = padd(a, b, -1.0)
        return all(abs(c) <= rel * g for c, g in d.t.values())
    for m, (c, g) in a.t.items():
        o = b.t.get(m)
        if o is None:
            return False
        if abs(c - o[0]) > rel * max(g, o[1]):
            return False
    return True


# --------------------------------------------------------------------------------------------------- sign knowledge
def sign_known(p):
    """'+' if provably > 0, '0+' if >= 0, '-' ... from intervals only, else None."""
    if not p.t:
        return "0"
    lo, hi = poly_interval(p)
    if lo > 0:
        return "+"
    if hi < 0:
        return "-"
    if lo >= 0:
        return "0+"
    if hi <= 0:
        return "0-"
    if CTX.path is not None:
        s = CTX.path.sign_of(p)
        if s:
            return s
        return CTX.path.sign_lin(p)
    return None


def atom_nonneg(a):
    lo, hi = atom_bounds(a)
    return lo >= 0


# --------------------------------------------------------------------------------------------------- interning
def intern_sum(p):
    """Atom for a primitive multi-term polynomial."""
    key = frozenset(p.t)
    lst = TABLE.sums.setdefault(key, [])
    for a in lst:
        if same(a.poly, p):
            return a
    lo, hi = poly_interval(p)
    # interval of the definition independent of the path: recompute with static bounds
    pth, CTX.path = CTX.path, None
    try:
        lo, hi = poly_interval(p)
    finally:
        CTX.path = pth
    a = Atom("sum", "S%d" % len(TABLE.atoms), lo, hi, poly=p)
    n = pscale(p, -1.0)
    for b in lst:
        if same(b.poly, n):
            a.meta, b.meta = b.id, a.id
    lst.append(a)
    return a


def argkey(x):
    """Canonical id of a function argument (polynomials matched up to rounding)."""
    if isinstance(x, Poly):
        key = ("k", frozenset(x.t))
        lst = TABLE.keys.setdefault(key, [])
        for i, p in lst:
            if same(p, x):
                return ("p", i)
        TABLE.n_keys += 1
        i = TABLE.n_keys
        lst.append((i, x))
        return ("p", i)
    return ("c", x)


def intern_fn(name, args, lo=-INF, hi=INF, integer=False, meta=None):
    key = (name,) + tuple(argkey(x) for x in args)
    a = TABLE.fns.get(key)
    if a is None:
        a = Atom("fn", name, lo, hi, integer, args=tuple(args), meta=meta)
        TABLE.fns[key] = a
    return a


# --------------------------------------------------------------------------------------------------- factoring
def _nice(c):
    f = Fraction(c).limit_denominator(20000)
    if f and abs(float(f) - c) <= 1e-13 * abs(c):
        return f
    f = Fraction(c).limit_denominator(10**7)
    return f if f and abs(float(f) - c) <= 4e-15 * abs(c) else None


def factor_primitive(p):
    """Split a primitive polynomial into (list of (Poly, multiplicity), scale); trivial when not factorable."""
    key = frozenset(p.t)
    lst = TABLE.factored.setdefault(key, [])
    for q, res in lst:
        if same(p, q):
            return res
    res = _factor_known(p)
    lst.append((p, res))
    return res


def _weight(m):
    """a generic total order of monomials compatible with products"""
    return sum(float(e) * math.sqrt(2 + 7 * a) for a, e in m)


def divide(p, s):
    """quotient p / s when s divides p exactly (up to rounding), else None"""
    ls = max(s.t, key=_weight)
    inv = tuple((a, -e) for a, e in ls)
    c0 = s.t[ls][0]
    rest = {m: v for m, v in p.t.items()}
    low = min(_weight(m) for m in p.t) - min(_weight(m) for m in s.t)
    out = {}
    for _ in range(3 * len(p.t) + 3):
        if not rest:
            return Poly(out)
        l = max(rest, key=_weight)
        q = _mono_mul(inv, l)
        if _weight(q) < low - 1e-9:
            return None
        c, g = rest[l]
        c /= c0
        g /= abs(c0)
        out[q] = (c, g)
        for m, (k, h) in s.t.items():
            mm = _mono_mul(q, m)
            a, b = rest.get(mm, (0.0, 0.0))
            n = a - c * k
            b = max(b, g * h)
            if mm == l or abs(n) <= CLOSE * b:
                rest.pop(mm, None)
            else:
                rest[mm] = (n, b)
    return None


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


def _content(p):
    mn = None
    for m in p.t:
        d = dict(m)
        mn = d if mn is None else {a: min(mn.get(a, Fraction(0)), d.get(a, Fraction(0))) for a in set(mn) | set(d)}
    return tuple(sorted((a, e) for a, e in mn.items() if e != 0))


def _factor_known(p):
    """divide out sums that are already in use, then factor the rest"""
    atoms = {a for m in p.t for a, _ in m}
    facs = []
    if 4 <= len(p.t) <= 60:
        for key, lst in list(TABLE.sums.items()):
            if not 2 <= len(key) <= 3 or len(key) >= len(p.t):
                continue
            if not all(a in atoms for m in key for a, _ in m):
                continue
            for s in lst:
                if _content(s.poly):
                    continue
                k = 0
                while k < 8 and len(p.t) >= len(s.poly.t):
                    q = divide(p, s.poly)
                    if q is None:
                        break
                    p, k = q, k + 1
                if k:
                    facs.append((s.poly, k))
    if not facs:
        return _factor(p)
    if len(p.t) == 1 and p.is_const():
        return facs, p.const()
    if len(p.t) == 1:
        (m, (c, g)), = p.t.items()
        return facs + [(Poly({m: (1.0, 1.0)}), 1)], c
    # the quotient may have a common monomial of its own
    cm = _content(p)
    if cm:
        inv = tuple((a, -e) for a, e in cm)
        p = Poly({_mono_mul(inv, m): v for m, v in p.t.items()})
        facs.append((Poly({cm: (1.0, 1.0)}), 1))
    more, sc = _factor(p)
    return facs + more, sc


def _factor(p):
    triv = ([(p, 1)], 1.0)
    if len(p.t) > 48:
        return triv
    import sympy
    atoms = sorted({a for m in p.t for a, _ in m})
    if len(atoms) > 5:
        return triv
    # exponents -> integers
    den = {}
    mn = {}
    for a in atoms:
        d = 1
        lowest = None
        for m in p.t:
            q = dict(m).get(a, Fraction(0))
            d = d * q.denominator // math.gcd(d, q.denominator)
            lowest = q if lowest is None else min(lowest, q)
        if d > 1:
            return triv
        den[a] = d
        mn[a] = lowest
        if lowest != 0:
            return triv
    syms = {a: sympy.Symbol("a%d" % a) for a in atoms}
    expr = sympy.Integer(0)
    deg = 0
    for m, (c, _) in p.t.items():
        f = _nice(c)
        if f is None:
            return triv
        term = sympy.Rational(f.numerator, f.denominator)
        dd = 0
        for a, q in m:
            term *= syms[a] ** int(q)
            dd += int(q)
        deg = max(deg, dd)
        expr += term
    if deg > 20 or deg < 2:
        return triv
    c, fs = sympy.factor_list(expr)
    if len(fs) == 1 and fs[0][1] == 1:
        return triv
    out = []
    scale = float(c)
    for fexpr, mult in fs:
        pp = sympy.Poly(fexpr, *[syms[a] for a in atoms])
        t = {}
        for mon, cc in pp.terms():
            key = tuple(sorted((a, Fraction(e)) for a, e in zip(atoms, mon) if e))
            t[key] = (float(cc), abs(float(cc)))
        out.append((Poly(t), int(mult)))
    return out, scale


def _lead(p):
    """deterministic leading monomial"""
    return max(p.t, key=lambda m: (len(m), m))


def ppow(p, q):
    """p ** q for rational q."""
    q = frac(q)
    if q == 0:
        return pconst(1.0)
    if q == 1:
        return p
    if not p.t:
        if q > 0:
            return ZERO
        raise ZeroDivisionError
    if p.is_const():
        c = p.const()
        if c < 0 and q.denominator != 1:
            raise ValueError("nan")
        v = c ** (q.numerator if q.denominator == 1 else float(q))
        return pconst(v)
    if len(p.t) == 1:
        (m, (c, g)), = p.t.items()
        if q.denominator == 1:
            n = int(q)
            t = {}
            _addterm(t, tuple((a, e * q) for a, e in m), c ** n, abs(c) ** n * (g / abs(c)))
            return Poly(t)
        if c < 0:
            # sign must come from the atoms
            return _opaque_pow(p, q)
        out = pconst(c ** float(q))
        d = []
        for a, e in m:
            at = TABLE.atoms[a]
            if atom_nonneg(at) or e.denominator != 1:
                # (an atom under a fractional power is non-negative on this path)
                d.append((a, e * q))
            elif e.denominator == 1 and e % 2 == 0:
                if (e * q).denominator == 1 and (e * q) % 2 == 0:
                    d.append((a, e * q))
                else:
                    ab = pabs(Poly({((a, Fraction(1)),): (1.0, 1.0)}))
                    out = pmul(out, ppow(ab, e * q))
            else:
                if sign_known(Poly({((a, Fraction(1)),): (1.0, 1.0)})) in ("+", "0+"):
                    d.append((a, e * q))
                else:
                    return _opaque_pow(p, q)
        t = {}
        _addterm(t, tuple(sorted(d)), 1.0, 1.0)
        return pmul(out, Poly(t))
    # several terms
    if q.denominator == 1 and 0 < q <= 8 and len(p.t) ** min(int(q), 4) <= MAX_TERMS:
        return ppow_int(p, int(q))
    # common monomial content over atoms of known sign
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d} | \
                     {a: e for a, e in common.items() if a not in d and e < 0} | \
                     {a: e for a, e in d.items() if a not in common and e < 0}
    # (an atom under a fractional power is non-negative on this path)
    common = {a: e for a, e in common.items() if e != 0 and (q.denominator == 1 or atom_nonneg(TABLE.atoms[a]) or e.denominator != 1)}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    prim = p
    if cm:
        t = {}
        for m, (c, g) in p.t.items():
            _addterm(t, _mmul(inv, m), c, g)        # expands integer powers of sums
        if len(t) > 1:
            prim = Poly(t)
            if len(t) < len(p.t) and _content(prim):
                # terms have cancelled: what is left may have a common monomial again
                r = ppow(prim, q)
                t = {}
                for m, (c, g) in r.t.items():
                    _addterm(t, _mmul(tuple((a, e * q) for a, e in cm), m), c, g)
                return Poly(t)
        elif t:
            (m, (c, g)), = t.items()
            return ppow(Poly({_mmul(cm, m): (c, g)}), q)
    lead = prim.t[_lead(prim)][0]
    prim = pscale(prim, 1.0 / lead)
    outer = lead
    facs, sc = factor_primitive(prim)
    res_parts = []
    rest = None                 # product of the factors of unknown sign
    signacc = 1.0
    for f, mult in facs:
        l = f.t[_lead(f)][0]
        f = pscale(f, 1.0 / l)
        sc *= l ** mult
        s = sign_known(f)
        if s is None and q.denominator == 1:
            s = "+"
        if s in ("+", "0+"):
            res_parts.append((f, mult))
        elif s in ("-", "0-"):
            res_parts.append((pscale(f, -1.0), mult))
            if mult % 2:
                signacc = -signacc
        else:
            fm = ppow_int(f, mult)
            rest = fm if rest is None else pmul(rest, fm)
    total = outer * sc * signacc
    if rest is None and q.denominator != 1 and total < 0:
        # contradicts the caller's guarantee that p >= 0: keep it whole
        res_parts, rest, total = [], prim, outer
    if rest is not None and q.denominator != 1 and total < 0:
        rest, total = pscale(rest, -1.0), -total
    k = total ** (int(q) if q.denominator == 1 else float(q))
    out = pconst(k)
    if rest is not None:
        if q.denominator == 1 and q > 0:
            out = pmul(out, ppow_int(rest, int(q)))
        else:
            out = pmul(out, Poly({((intern_sum(rest).id, q),): (1.0, 1.0)}))
    for f, mult in res_parts:
        if f.is_const():
            out = pscale(out, f.const() ** float(q * mult))
        elif len(f.t) == 1:
            out = pmul(out, ppow(f, q * mult))
        else:
            a = intern_sum(f)
            t = {}
            _addterm(t, ((a.id, q * mult),), 1.0, 1.0)
            out = pmul(out, Poly(t))
    if cm:
        t = {}
        _addterm(t, tuple((a, e * q) for a, e in cm), 1.0, 1.0)
        out = pmul(out, Poly(t))
    return out


def _opaque_pow(p, q):
    a = intern_sum(p)
    return Poly({((a.id, q),): (1.0, 1.0)})


def pabs(p):
    s = sign_known(p)
    if s in ("+", "0+", "0"):
        return p
    if s in ("-", "0-"):
        return pscale(p, -1.0)
    lead = p.t[_lead(p)][0]
    if lead < 0:
        p = pscale(p, -1.0)
    a = intern_fn("abs", (p,), 0.0, INF)
    return pvar(a)


def canon(p):
    """Normal form for zero testing: within each class of exponents (mod 1) of every interned sum, expand integer
    differences of its exponents."""
    p = _untwin(p)
    # terms that differ in a fractional exponent, or in an atom no sum contains, cannot cancel each other: work group by group
    inside, loose, seen = set(), set(), set()
    todo = [aid for m in p.t for aid, _ in m]
    while todo:
        aid = todo.pop()
        a = TABLE.atoms[aid]
        if a.kind == "sum" and aid not in seen:
            seen.add(aid)
            inside.add(aid)
            for k in a.poly.t:
                for x, e in k:
                    inside.add(x)
                    todo.append(x)
                    if e.denominator != 1:
                        loose.add(x)
    if not inside:
        return p
    groups = {}
    for m, v in p.t.items():
        key = tuple((a, q - math.floor(q) if a in inside else q) for a, q in m if a not in loose)
        groups.setdefault(tuple(k for k in key if k[1] != 0), {})[m] = v
    if len(groups) == 1:
        return _canon(p)
    t = {}
    for g in groups.values():
        for m, (c, h) in _canon(Poly(g)).t.items():
            _addkeep(t, m, c, h)
    return Poly(t)


def _canon(p):
    for _ in range(40):
        target = None
        # highest-id sum atom with more than one exponent in some class
        classes = {}
        for m in p.t:
            for aid, q in m:
                if TABLE.atoms[aid].kind == "sum":
                    classes.setdefault((aid, q - math.floor(q)), set()).add(q)
        # exponent 0 class: monomials without the atom, relevant for integer exponents
        for (aid, fr), qs in list(classes.items()):
            if fr == 0 and any(all(x != aid for x, _ in m) for m in p.t):
                qs.add(Fraction(0))
        for (aid, fr), qs in classes.items():
            if len(qs) > 1 and (target is None or aid > target[0]):
                target = (aid, fr, min(qs), max(qs))
        if target is None:
            return p
        aid, fr, mn, mx = target
        if mx - mn > 12:
            return p
        S = TABLE.atoms[aid].poly
        t = {}
        changed = False
        for m, (c, g) in p.t.items():
            d = dict(m)
            q = d.get(aid, Fraction(0))
            if q - math.floor(q) == fr and q > mn:
                n = int(q - mn)
                if mn == 0:
                    d.pop(aid, None)
                else:
                    d[aid] = mn
                m0 = tuple(sorted(d.items()))
                for m2, (c2, g2) in ppow_int(S, n).t.items():
                    mm = _mmul(m0, m2)
                    _addkeep(t, mm, c * c2, g * g2)
                changed = True
            else:
                _addkeep(t, m, c, g)
        if len(t) > MAX_TERMS:
            return p
        p = Poly(t)
        if not changed:
            return p
    return p


def _untwin(p):
    """S and -S are both interned: express integer powers through one of them"""
    use = {}
    for m in p.t:
        for aid, q in m:
            a = TABLE.atoms[aid]
            if a.kind == "sum" and a.meta is not None:
                use.setdefault(aid, set()).add(q.denominator)
    flip = set()
    for aid, ds in use.items():
        tw = TABLE.atoms[aid].meta
        if tw in use and ds == {1} and (use[tw] != {1} or tw < aid):
            flip.add(aid)
    if not flip:
        return p
    t = {}
    for m, (c, g) in p.t.items():
        d = {}
        for aid, q in m:
            if aid in flip:
                if int(q) % 2:
                    c = -c
                aid = TABLE.atoms[aid].meta
            d[aid] = d.get(aid, Fraction(0)) + q
            if d[aid] == 0:
                d.pop(aid)
        _addkeep(t, tuple(sorted(d.items())), c, g)
    return Poly(t)


def _addkeep(t, m, c, g):
    r = _reducible(m)
    if r is not None and TABLE.atoms[r[0]].kind != "sum":
        tt = {}
        _addterm(tt, m, c, g)
        for m2, (c2, g2) in tt.items():
            if m2 in t:
                t[m2] = (t[m2][0] + c2, t[m2][1] + g2)
            else:
                t[m2] = (c2, g2)
        return
    if m in t:
        c0, g0 = t[m]
        t[m] = (c0 + c, g0 + g)
    else:
        t[m] = (c, g)


def pdiff(p, aid):
    """d p / d atom"""
    out = ZERO
    for m, (c, g) in p.t.items():
        for b, q in m:
            da = atom_diff(b, aid)
            if not da.t:
                continue
            d = dict(m)
            if q == 1:
                d.pop(b)
            else:
                d[b] = q - 1
            t = {}
            _addterm(t, tuple(sorted(d.items())), c * float(q), g * abs(float(q)))
            out = padd(out, pmul(Poly(t), da))
    return out


def atom_diff(b, aid):
    if b == aid:
        return pconst(1.0)
    a = TABLE.atoms[b]
    if a.kind == "var":
        return ZERO
    if a.kind == "sum":
        return pdiff(a.poly, aid)
    inner = [pdiff(x, aid) for x in a.args if isinstance(x, Poly)]
    if all(not x.t for x in inner):
        return ZERO
    if a.name == "exp":
        return pmul(pvar(a), inner[0])
    if a.name == "cos":
        return pscale(pmul(pvar(TABLE.atoms[a.meta]), inner[0]), -1.0)
    if a.name == "sin":
        return pmul(pvar(TABLE.atoms[a.meta]), inner[0])
    if a.name == "log":
        return pmul(inner[0], ppow(a.args[0], -1))
    raise EngineLimit("derivative of " + a.name)


# --------------------------------------------------------------------------------------------------- functions
def p_trig(p):
    """(cos, sin) of a polynomial angle"""
    c0 = p.t.get((), (0.0, 0.0))[0]
    k = c0 / (math.pi / 2)
    if abs(k - round(k)) < 1e-12:
        cs = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][round(k) % 4]
    else:
        cs = (math.cos(c0), math.sin(c0))
    C, S = pconst(cs[0]), pconst(cs[1])
    for m, (c, g) in p.t.items():
        if m == ():
            continue
        if len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].name == "arccos" and abs(abs(c) - 1) < 1e-12 \
                and TABLE.atoms[m[0][0]].kind == "fn":
            x = TABLE.atoms[m[0][0]].args[0]
            ck = x
            sk = ppow(padd(pconst(1.0), pmul(x, x), -1.0), Fraction(1, 2))
            if c < 0:
                sk = pscale(sk, -1.0)
        else:
            base = None
            for b in (1.0, math.pi / 180, math.pi / 10800, math.pi / 648000, math.pi / 12, 2 * math.pi):
                r = c / b
                if abs(r - round(r)) < 1e-9 and 1 <= abs(round(r)) <= 8:
                    base = b
                    break
            if base is None:
                base, r = abs(c), (1.0 if c > 0 else -1.0)
            n = int(round(r))
            arg = Poly({m: (base, base)})
            ca = intern_fn("cos", (arg,), -1.0, 1.0)
            sa = intern_fn("sin", (arg,), -1.0, 1.0)
            ca.meta, sa.meta = sa.id, ca.id
            c1, s1 = pvar(ca), pvar(sa)
            ck, sk = pconst(1.0), ZERO
            for _ in range(abs(n)):
                ck, sk = padd(pmul(ck, c1), pmul(sk, s1), -1.0), padd(pmul(sk, c1), pmul(ck, s1))
            if n < 0:
                sk = pscale(sk, -1.0)
        C, S = padd(pmul(C, ck), pmul(S, sk), -1.0), padd(pmul(S, ck), pmul(C, sk))
    return C, S


def p_exp(p):
    if p.is_const():
        try:
            return pconst(math.exp(p.const()))
        except OverflowError:
            raise EngineLimit("exp overflow")
    # pull out  q * log(x)  terms
    out = pconst(1.0)
    rest = {}
    for m, (c, g) in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and TABLE.atoms[m[0][0]].kind == "fn" and TABLE.atoms[m[0][0]].name == "log":
            f = frac(c)
            if f.denominator <= 10000 and abs(f) <= 60:
                out = pmul(out, ppow(TABLE.atoms[m[0][0]].args[0], f))
                continue
        if m == () and abs(c) < 300:
            out = pscale(out, math.exp(c))
            continue
        rest[m] = (c, g)
    if not rest:
        return out
    p = Poly(rest)
    # reuse an existing exponential whose argument is a simple multiple
    key = frozenset(p.t)
    for kname, a in list(TABLE.fns.items()):
        if kname[0] == "exp" and frozenset(a.args[0].t) == key:
            l = _lead(p)
            r = p.t[l][0] / a.args[0].t[l][0]
            f = Fraction(r).limit_denominator(6)
            if f != 0 and abs(float(f) - r) < 1e-12 * abs(r) and same(pscale(a.args[0], r), p):
                t = {}
                _addterm(t, ((a.id, f),), 1.0, 1.0)
                return pmul(out, Poly(t))
    lo, hi = _static_interval(p)
    a = intern_fn("exp", (p,), math.exp(max(lo, -690.0)), math.exp(hi) if hi < 690 else INF)
    return pmul(out, pvar(a))


def _static_interval(p):
    pth, CTX.path = CTX.path, None
    try:
        return poly_interval(p)
    finally:
        CTX.path = pth


def p_log(p):
    if p.is_const():
        return pconst(math.log(p.const()))
    if len(p.t) == 1:
        (m, (c, g)), = p.t.items()
        if c > 0 and all(atom_nonneg(TABLE.atoms[a]) for a, _ in m):
            out = pconst(math.log(c))
            for a, q in m:
                at = TABLE.atoms[a]
                if at.kind == "fn" and at.name == "exp":
                    out = padd(out, pscale(at.args[0], float(q)))
                    continue
                lo, hi = at.lo, at.hi
                la = intern_fn("log", (pvar(at),), math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
                out = padd(out, pscale(pvar(la), float(q)))
            return out
    q = ppow(p, Fraction(1, 1))
    lo, hi = _static_interval(q)
    la = intern_fn("log", (q,), math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
    return pvar(la)


def p_tanh(p):
    if p.is_const():
        return pconst(math.tanh(p.const()))
    lead = p.t[_lead(p)][0]
    s = 1.0
    if lead < 0:
        p = pscale(p, -1.0)
        s = -1.0
    lo, hi = _static_interval(p)
    a = intern_fn("tanh", (p,), math.tanh(lo) if lo > -INF else -1.0, math.tanh(hi) if hi < INF else 1.0)
    return pscale(pvar(a), s)


# --------------------------------------------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("op", "p", "args", "key")
    # op in 'lt','le','eq' (p op 0) , 'and','or','not','true','false'

    def __init__(self, op, p=None, args=()):
        self.op, self.p, self.args = op, p, args

    def __and__(self, o):
        return cand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return cor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return cnot(self)

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        if CTX.path is None:
            raise EngineLimit("condition outside a path")
        return CTX.path.decide(self)

    def logical_not(self):
        return cnot(self)

    def __repr__(self):
        if self.op in ("lt", "le", "eq", "close"):
            return "[%r %s 0]" % (self.p, {"lt": "<", "le": "<=", "eq": "==", "close": "~"}[self.op])
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


TRUE, FALSE = Cond("true"), Cond("false")


def as_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, Sym):
        return cnot(x == 0)
    return TRUE if bool(x) else FALSE


def cnot(a):
    a = as_cond(a)
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return Cond("le", pscale(a.p, -1.0))
    if a.op == "le":
        return Cond("lt", pscale(a.p, -1.0))
    if a.op == "and":
        return cor(*[cnot(x) for x in a.args])
    if a.op == "or":
        return cand(*[cnot(x) for x in a.args])
    return Cond("not", args=(a,))


def cand(*xs):
    out = []
    for x in xs:
        x = as_cond(x)
        if x.op == "false":
            return FALSE
        if x.op == "true":
            continue
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else Cond("and", args=tuple(out))


def cor(*xs):
    out = []
    for x in xs:
        x = as_cond(x)
        if x.op == "true":
            return TRUE
        if x.op == "false":
            continue
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else Cond("or", args=tuple(out))


def root_free(p):
    """for  a - b  with two positive monomials: a polynomial of the same sign without fractional powers, or None"""
    if len(p.t) != 2:
        return None
    (m1, (c1, _)), (m2, (c2, _)) = p.t.items()
    if not c1 * c2 < 0:
        return None
    for m in (m1, m2):
        for a, e in m:
            if e.denominator == 1 and not atom_nonneg(TABLE.atoms[a]) and \
                    sign_known(Poly({((a, Fraction(1)),): (1.0, 1.0)})) not in ("+", "0+"):
                return None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) - e
    d = {a: e for a, e in d.items() if e != 0}
    if not d:
        return None
    num, den = 0, 1
    # a difference or a longer sum under a root is made to appear linearly (and expanded); otherwise all roots go
    diff = [e for a, e in d.items() if TABLE.atoms[a].kind == "sum" and
            (len(TABLE.atoms[a].poly.t) > 2 or len({c > 0 for c, _ in TABLE.atoms[a].poly.t.values()}) == 2)]
    for e in diff or d.values():
        num, den = math.gcd(num, abs(e.numerator)), den * e.denominator // math.gcd(den, e.denominator)
    g = Fraction(num, den)
    if g == 1 and all(e > 0 for e in d.values()):
        return None
    # c1 m1 + c2 m2 has the sign of s (|c1/c2| m1/m2 - 1), and of  s (k^(1/g) prod(+) - prod(-))
    s = 1.0 if c1 > 0 else -1.0
    if max(abs(e / g) for e in d.values()) > 8:
        return None
    k = abs(c1 / c2) ** float(1 / g)
    if not (1e-250 < k < 1e250):
        return None
    a = _expand(Poly({tuple(sorted((x, e / g) for x, e in d.items() if e > 0)): (s * k**0.5, k**0.5)}))
    b = _expand(Poly({tuple(sorted((x, -e / g) for x, e in d.items() if e < 0)): (s / k**0.5, 1 / k**0.5)}))
    return canon(padd(a, b, -1.0))


def zero_form(p):
    """a polynomial with the same zeros: a product vanishes where one of its factors does"""
    if len(p.t) != 1:
        return p
    (m, (c, _)), = p.t.items()
    if c == 0 or not m:
        return p
    keep = [a for a, e in m if e > 0 and
            sign_known(Poly({((a, Fraction(1)),): (1.0, 1.0)})) not in ("+", "-")]
    if len(keep) == 1 and TABLE.atoms[keep[0]].kind == "sum":
        return TABLE.atoms[keep[0]].poly
    return Poly({tuple(sorted((a, Fraction(1)) for a in keep)): (1.0, 1.0)})


def plain_form(p):
    """a polynomial of the same sign: positive common factors removed"""
    p = clear_common(p)
    for _ in range(3):
        if not 3 <= len(p.t) <= 60:
            break
        q = clear_roots(p)
        if q is p:
            break
        p = clear_common(q)
    if 3 < len(p.t) <= 60:
        p = clear_common(drop_positive(p))
    return p


def sign_form(p):
    """a polynomial of the same sign: positive common factors removed, no roots where two monomials are compared"""
    p = plain_form(p)
    q = root_free(p)
    return p if q is None else clear_common(q)


def drop_positive(p):
    """p without the sums of certainly positive value (m1 + m2, ...) that divide it"""
    atoms = {a for m in p.t for a, _ in m}
    for key, lst in list(TABLE.sums.items()):
        if not 2 <= len(key) <= 3 or len(key) >= len(p.t) or not all(a in atoms for m in key for a, _ in m):
            continue
        for s in lst:
            if s.lo <= 0 or _content(s.poly):
                continue
            while len(p.t) > len(s.poly.t):
                q = divide(p, s.poly)
                if q is None:
                    break
                p = q
    return p


def clear_roots(p):
    """divide by the fractional power of a positive sum that also divides the remaining terms"""
    sums = {a for m in p.t for a, e in m if e.denominator != 1 and e > 0 and TABLE.atoms[a].kind == "sum"}
    for a in sums:
        s = TABLE.atoms[a]
        if s.lo <= 0:
            continue
        frac = {m: v for m, v in p.t.items() if any(b == a and e.denominator != 1 for b, e in m)}
        rest = {m: v for m, v in p.t.items() if m not in frac}
        if not rest or any(b == a for m in rest for b, _ in m):
            continue
        q = divide(Poly(rest), s.poly) if len(rest) >= len(s.poly.t) else None
        if q is None:
            continue
        k = min(min(e for m in frac for b, e in m if b == a), Fraction(1))
        t = {}
        down = ((a, -k),)
        for m, (c, g) in frac.items():
            _addterm(t, _mmul(down, m), c, g)
        up = ((a, 1 - k),)
        for m, (c, g) in q.t.items():
            _addterm(t, _mmul(up, m) if k != 1 else m, c, g)
        p = Poly(t)
    return p


def clear_common(p):
    """divide by the common monomial of the positive atoms (same sign)"""
    if len(p.t) < 2:
        return p
    low = {}
    for i, m in enumerate(p.t):
        d = dict(m)
        if i == 0:
            low = {a: e for a, e in d.items()}
        else:
            for a in list(low):
                low[a] = min(low[a], d.get(a, 0))
            for a, e in d.items():
                if a not in low and e < 0:
                    low[a] = e
    cm = {a: -e for a, e in low.items() if e != 0 and TABLE.atoms[a].lo > 0}
    if not cm:
        return p
    cm = tuple(sorted(cm.items()))
    t = {}
    for m, (c, g) in p.t.items():
        _addterm(t, _mmul(cm, m), c, g)
    return Poly(t) if t else p


def _expand(p):
    t = {}
    for m, (c, g) in p.t.items():
        _addterm(t, m, c, g)
    return Poly(t)


def value_sign(x, depth=60):
    """sign of a value from the way it was formed (products and sums of values of known sign)"""
    if x.sp:
        return {"inf": "+", "-inf": "-", "nan": None}[x.sp]
    s = sign_known(x.p)
    if s is None:
        q = root_free(x.p)
        if q is not None:
            s = sign_known(q)
    if s is not None or x.src is None or depth == 0:
        return s
    op, a, b = x.src
    if op == "-":
        return None
    sa = value_sign(a, depth - 1)
    if sa is None:
        return None
    sb = value_sign(b, depth - 1)
    if sb is None:
        return None
    if op == "+":
        if sa == "0":
            return sb
        if sb == "0":
            return sa
        if sa[-1] != sb[-1]:
            return None
        return sa if len(sa) == 1 else sb
    if "0" in (sa, sb):
        return "0"
    r = "+" if sa[-1] == sb[-1] else "-"
    return r if len(sa) == len(sb) == 1 else "0" + r


def cmp_poly(op, d):
    """condition  d op 0  with constant folding"""
    if op == "eq":
        d = zero_form(d)
    if not d.t:
        return TRUE if op in ("le", "eq") else FALSE
    if d.is_const():
        c = d.const()
        return TRUE if {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op] else FALSE
    if op != "eq":
        d = plain_form(d)
        if not d.t or d.is_const():
            return cmp_poly(op, d)
    return Cond(op, d)


def factor_cond(c):
    """an inequality  p < 0  with p written as a product of factors (easier to decide, no cancellation)"""
    if c.op not in ("lt", "le") or len(c.p.t) < 2 or len(c.p.t) > 60:
        return c
    p = c.p
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            keys = set(common) | set(d)
            common = {a: min(common.get(a, Fraction(0)), d.get(a, Fraction(0))) for a in keys}
    common = {a: e for a, e in common.items() if e != 0}
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    t = {}
    for m, (k, g) in p.t.items():
        _addterm(t, _mmul(inv, m), k, g)
    prim = Poly(t)
    if len(t) < 2:
        return c
    lead = prim.t[_lead(prim)][0]
    facs, sc = factor_primitive(pscale(prim, 1.0 / lead))
    if len(facs) == 1 and facs[0][1] == 1:
        return c
    k = lead * sc
    d = dict(cm)
    for f, mult in facs:
        if len(f.t) == 1:
            (m, (kk, _)), = f.t.items()
            k *= kk ** mult
            for a, e in m:
                d[a] = d.get(a, Fraction(0)) + e * mult
            continue
        s = -1.0 if sign_known(f) in ("-", "0-") else 1.0
        l = f.t[_lead(f)][0]
        if s > 0 and sign_known(f) is None:
            s = 1.0 if l > 0 else -1.0
        f = pscale(f, s / abs(l))
        k *= (s * abs(l)) ** mult
        aid = intern_sum(f).id
        d[aid] = d.get(aid, Fraction(0)) + mult
    return Cond(c.op, Poly({tuple(sorted((a, e) for a, e in d.items() if e != 0)): (k, abs(k))}))


# --------------------------------------------------------------------------------------------------- Sym
_SPECIAL = ("inf", "-inf", "nan")


class Sym:
    __slots__ = ("p", "sp", "src")
    __array_priority__ = -1000.0

    def __init__(self, p, sp=None, src=None):
        self.p = p
        self.sp = sp
        self.src = src          # how the value was formed: only used to find its sign

    # ---- construction
    @staticmethod
    def const(x):
        x = float(x)
        if math.isnan(x):
            return NAN
        if x == INF:
            return PINF
        if x == -INF:
            return NINF
        return Sym(pconst(x))

    def is_const(self):
        return self.sp is not None or self.p.is_const()

    def cval(self):
        if self.sp:
            return float(self.sp)
        return self.p.const()

    def __repr__(self):
        return self.sp if self.sp else "<%r>" % self.p

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return self.cval()
        raise TypeError("symbolic value has no float")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise TypeError("symbolic value has no int")

    def __index__(self):
        if self.is_const() and self.cval() == int(self.cval()):
            return int(self.cval())
        raise TypeError("symbolic value is not an index")

    def __bool__(self):
        if self.is_const():
            return bool(self.cval())
        return bool(cnot(self == 0))

    def item(self, *a):
        return self

    tolist = item
    shape = ()
    ndim = 0
    dtype = np.dtype(object)
    size = 1

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("symbolic scalar is not an array")

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            return _sp_add(self, o)
        return Sym(padd(self.p, o.p), None, ("+", self, o))

    __radd__ = __add__

    def __neg__(self):
        if self.sp:
            return {"inf": NINF, "-inf": PINF, "nan": NAN}[self.sp]
        return Sym(pscale(self.p, -1.0))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            return _sp_add(self, -o)
        return Sym(padd(self.p, o.p, -1.0), None, ("-", self, o))

    def __rsub__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return o.__sub__(self)

    def __mul__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            return _sp_mul(self, o)
        return Sym(pmul(self.p, o.p), None, ("*", self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if o.sp:
            if o.sp == "nan" or self.sp:
                return NAN
            return Sym(ZERO)
        return self * o._recip()

    def __rtruediv__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return o.__truediv__(self)

    def _recip(self):
        if self.sp:
            return NAN if self.sp == "nan" else Sym(ZERO)
        z = _is_zero(self.p)
        if z:
            return PINF
        return Sym(ppow(self.p, -1))

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return self - o * (self / o).floor()

    def __pow__(self, o):
        if isinstance(o, Sym):
            if o.is_const() and not o.sp:
                o = o.cval()
            else:
                if o.sp or self.sp:
                    raise EngineLimit("power with inf")
                if self.is_const():
                    return Sym(p_exp(pscale(o.p, math.log(self.cval()))))
                return Sym(p_exp(pmul(o.p, p_log(self.p))))
        elif not isinstance(o, numbers.Number):
            return NotImplemented
        q = frac(o)
        if self.sp:
            if self.sp == "nan":
                return NAN
            if q == 0:
                return ONE
            if self.sp == "inf":
                return PINF if q > 0 else Sym(ZERO)
            if q.denominator == 1:
                return (PINF if q % 2 == 0 else NINF) if q > 0 else Sym(ZERO)
            return PINF if q > 0 else Sym(ZERO)
        if q == 0:
            return ONE
        if q.denominator != 1:
            # the base must be non-negative or the float result is nan
            s = sign_known(self.p)
            if s == "-":
                return NAN
            if s not in ("+", "0+", "0"):
                s = value_sign(self)
                if s in ("+", "0+"):
                    CTX.path.note_sign(self.p, s)
                elif not bool(self >= 0):
                    return NAN
        if q < 0:
            if _is_zero(self.p):
                return PINF
        try:
            return Sym(ppow(self.p, q))
        except OverflowError:
            return PINF

    def __rpow__(self, o):
        o = _lift(o)
        if o is NotImplemented:
            return o
        return o.__pow__(self)

    def __abs__(self):
        if self.sp:
            return PINF if self.sp != "nan" else NAN
        return Sym(pabs(self.p))

    absolute = fabs = __abs__

    # ---- comparisons
    def _cmp(self, o, op):
        o = _lift(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            a = float(self.sp) if self.sp else 0.0
            b = float(o.sp) if o.sp else 0.0
            r = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
            if (not self.sp or not o.sp) and not (self.sp == "nan" or o.sp == "nan"):
                pass
            return TRUE if r else FALSE
        if op in ("gt", "ge"):
            return o._cmp(self, "lt" if op == "gt" else "le")
        d = canon(padd(self.p, o.p, -1.0))
        d = Poly({m: v for m, v in d.t.items() if abs(v[0]) > DROP * v[1]})
        if op == "ne":
            return cnot(cmp_poly("eq", d))
        return cmp_poly(op, d)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    # ---- numpy object-ufunc protocol
    def sqrt(self):
        return self ** Fraction(1, 2)

    def cbrt(self):
        return self ** Fraction(1, 3)

    def square(self):
        return self * self

    def reciprocal(self):
        return ONE / self

    def cos(self):
        return Sym(p_trig(self._fin())[0])

    def sin(self):
        return Sym(p_trig(self._fin())[1])

    def tan(self):
        c, s = p_trig(self._fin())
        return Sym(s) / Sym(c)

    def _fin(self):
        if self.sp:
            raise EngineLimit("function of inf/nan")
        return self.p

    def exp(self):
        if self.sp:
            return {"inf": PINF, "-inf": Sym(ZERO), "nan": NAN}[self.sp]
        return Sym(p_exp(self.p))

    def exp2(self):
        return Sym(p_exp(pscale(self._fin(), math.log(2))))

    def log(self):
        if self.sp:
            return self if self.sp == "inf" else NAN
        if _is_zero(self.p):
            return NINF
        s = sign_known(self.p)
        if s == "-" or (s is None and not bool(self > 0)):
            return NAN
        return Sym(p_log(self.p))

    def log10(self):
        r = self.log()
        return r if r.sp else Sym(pscale(r.p, 1 / math.log(10)))

    def log2(self):
        r = self.log()
        return r if r.sp else Sym(pscale(r.p, 1 / math.log(2)))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def tanh(self):
        if self.sp:
            return {"inf": ONE, "-inf": -ONE, "nan": NAN}[self.sp]
        return Sym(p_tanh(self.p))

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def arccos(self):
        if self.is_const():
            return Sym.const(math.acos(self.cval()))
        return Sym(pvar(intern_fn("arccos", (self._fin(),), 0.0, math.pi)))

    def arcsin(self):
        return Sym.const(math.pi / 2) - self.arccos()

    def floor(self):
        if self.is_const():
            return Sym.const(math.floor(self.cval()))
        lo, hi = _static_interval(self.p)
        return Sym(pvar(intern_fn("floor", (self.p,), math.floor(lo) if lo > -INF else -INF,
                                  math.floor(hi) if hi < INF else INF, integer=True)))

    __floor__ = floor

    def ceil(self):
        return -((-self).floor())

    __ceil__ = ceil

    def rint(self):
        # round half up (numpy rounds half to even; halfway points are outside the claim)
        return (self + Sym.const(0.5)).floor()

    def __round__(self, n=None):
        return self.rint()

    round = __round__

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def isnan(self):
        return self.sp == "nan"

    def isfinite(self):
        return self.sp is None

    def copy(self):
        return self


def _lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Sym.const(int(x))
    if isinstance(x, numbers.Real):
        return Sym.const(float(x))
    if isinstance(x, np.ndarray) and x.shape == () and type(x) is np.ndarray:
        return _lift(x.item())
    return NotImplemented


NAN = Sym(None, "nan")
PINF = Sym(None, "inf")
NINF = Sym(None, "-inf")
ONE = Sym(pconst(1.0))
SZERO = Sym(ZERO)
numbers.Number.register(Sym)


def _is_zero(p):
    """is p exactly 0? may fork"""
    if not p.t:
        return True
    s = sign_known(p)
    if s in ("+", "-"):
        return False
    if CTX.path is None:
        return False
    return bool(cmp_poly("eq", p))


def _sp_add(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    if a.sp and b.sp:
        return a if a.sp == b.sp else NAN
    return a if a.sp else b


def _sp_mul(a, b):
    if a.sp == "nan" or b.sp == "nan":
        return NAN
    if not a.sp:
        a, b = b, a
    if b.sp:
        return PINF if a.sp == b.sp else NINF
    s = sign_known(b.p)
    if s not in ("+", "-"):
        if _is_zero(b.p):
            return NAN
        s = "+" if bool(b > 0) else "-"
    if s == "+":
        return a
    return -a


def new_var(name, lo, hi, integer=False):
    a = TABLE.vars.get(name)
    if a is None:
        a = Atom("var", name, float(lo), float(hi), integer)
        TABLE.vars[name] = a
    elif (a.lo, a.hi) != (float(lo), float(hi)):
        raise RuntimeError("input %s declared with two ranges" % name)
    return Sym(pvar(a))


def new_fn(name, args, lo=-INF, hi=INF, integer=False, meta=None):
    aa = []
    for x in args:
        if isinstance(x, Sym):
            if x.sp:
                aa.append(x.sp)
            else:
                aa.append(x.p)
        elif isinstance(x, (float, np.floating)):
            aa.append(pconst(x))
        else:
            aa.append(x)
    return Sym(pvar(intern_fn(name, aa, lo, hi, integer, meta)))


# --------------------------------------------------------------------------------------------------- numeric evaluation
class NoValue(Exception):
    pass


def eval_poly(p, env):
    tot = 0.0
    for m, (c, _) in p.t.items():
        v = c
        for aid, q in m:
            x = eval_atom(aid, env)
            if x == 0 and q < 0:
                raise NoValue
            if x < 0 and q.denominator != 1:
                raise NoValue
            v *= x ** (int(q) if q.denominator == 1 else float(q))
        tot += v
    return tot


def eval_mag(p, env):
    """sum of the absolute values of the terms"""
    tot = 0.0
    for m, (c, g) in p.t.items():
        tot += abs(eval_poly(Poly({m: (g, 0.0)}), env))
    return tot


FN_EVAL = {
    "cos": lambda a: math.cos(a[0]), "sin": lambda a: math.sin(a[0]), "exp": lambda a: math.exp(a[0]),
    "log": lambda a: math.log(a[0]) if a[0] > 0 else _nov(), "tanh": lambda a: math.tanh(a[0]), "abs": lambda a: abs(a[0]),
    "floor": lambda a: math.floor(a[0]), "arccos": lambda a: math.acos(a[0]),
}


def _nov():
    raise NoValue


def eval_atom(aid, env):
    if aid in env:
        return env[aid]
    a = TABLE.atoms[aid]
    if a.kind == "var":
        raise NoValue
    if a.kind == "sum":
        v = eval_poly(a.poly, env)
    else:
        f = FN_EVAL.get(a.name)
        if f is None:
            raise NoValue
        v = f([eval_poly(x, env) if isinstance(x, Poly) else x for x in a.args])
    env[aid] = v
    return v


def eval_cond(c, env):
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if c.op == "and":
        return all(eval_cond(x, env) for x in c.args)
    if c.op == "or":
        return any(eval_cond(x, env) for x in c.args)
    if c.op == "not":
        return not eval_cond(c.args[0], env)
    v = eval_poly(c.p, env)
    return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[c.op]


def eval_cond_tol(c, env):
    """True / False, or None where rounding decides"""
    if c.op in ("and", "or"):
        r = [eval_cond_tol(x, env) for x in c.args]
        first, rest = (False, True) if c.op == "and" else (True, False)
        return first if first in r else (None if None in r else rest)
    if c.op == "not":
        r = eval_cond_tol(c.args[0], env)
        return None if r is None else not r
    if c.op in ("lt", "le", "eq"):
        v, m = eval_poly(c.p, env), eval_mag(c.p, env)
        if abs(v) <= 1e-10 * m and m > 0:
            return None
        return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[c.op]
    return eval_cond(c, env)
