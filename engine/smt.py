"""Translation of generalised polynomials / conditions to SMT, and the solver calls."""
import math
import time
from fractions import Fraction

import z3

from . import sym
from .sym import TABLE, Poly, Cond, INF

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}
DUMP = []          # (smt2 text, expected) kept for the cvc5 cross-check in the thorough tier
KEEP_DUMP = [0]

PAIR_AXIOMS = {}   # fn name -> function(enc, [atoms]) -> list of z3 constraints


def snap(x):
    """the simple rational a float stands for, when there is one"""
    f = Fraction(x).limit_denominator(2000)
    if abs(float(f) - x) <= 4e-16 * abs(x):
        return f
    f = Fraction(x).limit_denominator(200000)
    if abs(float(f) - x) <= 4e-16 * abs(x) and abs(x) > 1e-3:
        return f
    f = Fraction(x)
    return f


def rv(x):
    f = x if isinstance(x, Fraction) else snap(x)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


class Enc:
    def __init__(self, stage, bounds=None):
        self.stage = stage
        self.bounds = bounds or {}
        self.cons = []
        self.vars = {}
        self.roots = {}
        self.opaque = {}
        self.pending = []
        self.seen_fn = {}
        self.int_used = False

    def bnd(self, a):
        return self.bounds.get(a.id, (a.lo, a.hi))

    # -- atoms
    def base(self, aid):
        v = self.vars.get(aid)
        if v is not None:
            return v
        a = TABLE.atoms[aid]
        nm = (a.name if a.kind == "var" else "%s_%d" % (a.name, aid))
        if a.integer:
            iv = z3.Int(nm + "_i")
            v = z3.Real(nm)
            self.cons.append(v == z3.ToReal(iv))
            self.int_used = True
        else:
            v = z3.Real(nm)
        self.vars[aid] = v
        lo, hi = self.bnd(a)
        if lo > -INF:
            self.cons.append(v >= rv(lo))
        if hi < INF:
            self.cons.append(v <= rv(hi))
        if a.kind == "sum":
            self.pending.append(("sum", a))
        elif a.kind == "fn":
            self.pending.append(("fn", a))
            self.seen_fn.setdefault(a.name, []).append(a)
        return v

    def power(self, aid, q):
        a = TABLE.atoms[aid]
        if q == 1:
            return self.base(aid)
        lo, hi = self.bnd(a)
        if q.denominator == 1 and 0 < q <= 24:
            b = self.base(aid)
            return self._ip(b, int(q))
        if q.denominator == 1 and -24 <= q < 0:
            key = (aid, "inv")
            iv = self.roots.get(key)
            if iv is None:
                b = self.base(aid)
                iv = z3.Real("inv_%d" % aid)
                self.roots[key] = iv
                self.cons.append(iv * b == 1)
                if lo >= 0:
                    self.cons.append(iv > 0)
                if hi <= 0:
                    self.cons.append(iv < 0)
            return self._ip(iv, -int(q))
        d = q.denominator
        n = q * d
        if d <= 12 and abs(n) <= 40:
            key = (aid, d)
            r = self.roots.get(key)
            if r is None:
                b = self.base(aid)
                r = z3.Real("rt%d_%d" % (d, aid))
                self.roots[key] = r
                self.cons.append(r >= 0)
                self.cons.append(self._ip(r, d) == b)
                if lo > 0 and lo < INF:
                    self.cons.append(r >= rv(lo ** (1.0 / d) * (1 - 1e-12)))
                if hi < INF:
                    self.cons.append(r <= rv(max(hi, 0) ** (1.0 / d) * (1 + 1e-12)))
            if n > 0:
                return self._ip(r, int(n))
            key = (aid, d, "inv")
            ir = self.roots.get(key)
            if ir is None:
                ir = z3.Real("irt%d_%d" % (d, aid))
                self.roots[key] = ir
                self.cons.append(ir * r == 1)
                self.cons.append(ir > 0)
            return self._ip(ir, -int(n))
        key = (aid, q)
        v = self.roots.get(key)
        if v is None:
            self.base(aid)
            v = z3.Real("pw_%d_%d_%d" % (aid, q.numerator, q.denominator))
            self.roots[key] = v
            l, h = sym.ipow(lo, hi, q)
            self._bound(v, l, h)
            if lo > 0:
                self.cons.append(v > 0)
        return v

    def _bound(self, v, l, h):
        if l > -INF and not math.isnan(l):
            self.cons.append(v >= rv(l - abs(l) * 1e-12))
        if h < INF and not math.isnan(h):
            self.cons.append(v <= rv(h + abs(h) * 1e-12))

    @staticmethod
    def _ip(b, n):
        r = b
        for _ in range(n - 1):
            r = r * b
        return r

    def mono(self, m):
        if not m:
            return None
        if self.stage == "lin":
            if len(m) == 1 and m[0][1] == 1:
                return self.base(m[0][0])
            v = self.opaque.get(m)
            if v is None:
                v = z3.Real("m_%d" % len(self.opaque))
                self.opaque[m] = v
                l, h = 1.0, 1.0
                pos = True
                for aid, q in m:
                    a = TABLE.atoms[aid]
                    lo, hi = self.bnd(a)
                    l, h = sym._imul((l, h), sym.ipow(lo, hi, q))
                    pos = pos and lo > 0
                self._bound(v, l, h)
                if pos:
                    self.cons.append(v > 0)
            return v
        r = None
        for aid, q in m:
            x = self.power(aid, q)
            r = x if r is None else r * x
        return r

    def poly(self, p, use=0, scale=1.0):
        s = None
        for m, v in p.t.items():
            c = v[use]
            if c == 0 or scale == 0:
                continue
            c = snap(c) * Fraction(scale) if use == 0 else Fraction(c) * Fraction(scale)
            x = self.mono(m)
            if use == 1 and x is not None:
                x = self.absv(m, x)
            t = rv(c) if x is None else (rv(c) * x)
            s = t if s is None else s + t
        return s if s is not None else z3.RealVal(0)

    def absv(self, m, x):
        l, h = 1.0, 1.0
        for aid, q in m:
            a = TABLE.atoms[aid]
            lo, hi = self.bnd(a)
            l, h = sym._imul((l, h), sym.ipow(lo, hi, q))
        if l >= 0:
            return x
        a = self.roots.get(("abs", m))
        if a is None:
            # an upper bound of |x|: enough for (and implied by) the negated closeness
            a = z3.Real("abs_%d" % len(self.roots))
            self.roots[("abs", m)] = a
            self.cons.append(a >= x)
            self.cons.append(a >= -x)
        return a

    @staticmethod
    def scale_of(p):
        mx = max((abs(c) for c, _ in p.t.values()), default=0.0)
        mg = max((g for _, g in p.t.values()), default=1.0)
        k = mx if mx > 0 else mg
        if not (k > 0) or math.isinf(k):
            return 1.0
        return 2.0 ** (-round(math.log2(k)))

    def cond(self, c, neg=False):
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op == "and":
            return z3.And(*[self.cond(x) for x in c.args])
        if c.op == "or":
            return z3.Or(*[self.cond(x) for x in c.args])
        if c.op == "not":
            return z3.Not(self.cond(c.args[0], not neg))
        if c.op == "close":
            eps = c.args[0]
            k = 2.0 ** (-round(math.log2(max((g for _, g in c.p.t.values()), default=1.0) or 1.0)))
            d = self.poly(c.p, 0, k)
            s = self.poly(c.p, 1, k * eps)
            if not neg:
                raise ValueError("closeness is only ever refuted")
            return z3.And(d <= s, -d <= s)
        p = c.p
        if c.op in ("lt", "le"):
            # two monomials compared: the form without fractional powers is equivalent
            q = sym.root_free(p)
            if q is not None and self.stage == "lin":
                return z3.And(self.rel(c.op, p), self.rel(c.op, q))
            p = p if q is None else q
        return self.rel(c.op, self.clear(p) if self.stage == "nra" else p)

    def rel(self, op, p):
        k = self.scale_of(p)
        e = self.poly(p, 0, k)
        if op == "lt":
            return e < 0
        if op == "le":
            return e <= 0
        if op == "eq":
            return e == 0
        raise ValueError(op)

    def clear(self, p):
        """multiply by positive powers of atoms that occur with negative exponents (they are positive)"""
        neg = {}
        for m in p.t:
            for aid, q in m:
                if q < 0:
                    lo, hi = self.bnd(TABLE.atoms[aid])
                    if lo >= 0:
                        neg[aid] = min(neg.get(aid, 0), q)
        if not neg:
            return p
        mul = tuple(sorted((a, -q) for a, q in neg.items()))
        out = {}
        for m, v in p.t.items():
            sym._addkeep(out, sym._mmul(mul, m), *v)
        return sym.canon(Poly(out))

    def finish(self):
        """definitions and axioms for everything mentioned"""
        n = 0
        while self.pending:
            kind, a = self.pending.pop()
            n += 1
            v = self.vars[a.id]
            if kind == "sum":
                k = self.scale_of(a.poly)
                self.cons.append(v * rv(k) == self.poly(a.poly, 0, k))
            elif a.name == "abs":
                x = self.poly(a.args[0])
                self.cons.append(z3.Or(v == x, v == -x))
            elif a.name == "floor":
                x = self.poly(a.args[0])
                self.cons.append(v <= x)
                self.cons.append(x < v + 1)
            elif a.name in ("cos", "sin") and self.stage != "lin":
                other = self.base(a.meta)
                self.cons.append(v * v + other * other == 1)
            if n > 4000:
                break
        done = set()
        for name, lst in list(self.seen_fn.items()):
            if name in ("exp", "tanh", "log") and 1 < len(lst) <= 6:
                for i in range(len(lst)):
                    for j in range(i):
                        x, y = self.poly(lst[i].args[0]), self.poly(lst[j].args[0])
                        self.cons.append((x < y) == (self.vars[lst[i].id] < self.vars[lst[j].id]))
            if name in PAIR_AXIOMS and name not in done:
                done.add(name)
                self.cons.extend(PAIR_AXIOMS[name](self, lst))
        while self.pending:
            kind, a = self.pending.pop()
            if kind == "sum":
                k = self.scale_of(a.poly)
                self.cons.append(self.vars[a.id] * rv(k) == self.poly(a.poly, 0, k))


def check(conds, stage, timeout_ms, bounds=None, want_model=False, keep=True):
    """Satisfiability of the conjunction of conds. -> ('unsat'|'sat'|'unknown', enc, model)"""
    t0 = time.time()
    enc = Enc(stage, bounds)
    fs = [enc.cond(c) for c in conds]
    enc.finish()
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in enc.cons:
        s.add(f)
    for f in fs:
        s.add(f)
    if KEEP_DUMP[0] and keep:
        DUMP.append([s.to_smt2(), None])
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    model = None
    if r == "sat" and want_model:
        model = s.model()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    STATS[r if r in ("unsat", "sat") else "unknown"] += 1
    if KEEP_DUMP[0] and keep:
        DUMP[-1][1] = r
    return r, enc, model


def num(v):
    if v is None:
        return None
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    return None


def model_values(enc, model):
    """values of the input variables in a model (angles recovered from their sine/cosine)"""
    out = {}
    trig = {}
    for aid, v in enc.vars.items():
        a = TABLE.atoms[aid]
        x = num(model.eval(v, model_completion=True))
        if a.kind == "var":
            if x is not None:
                out[a.name] = x
        elif a.kind == "fn" and a.name == "cos" and x is not None:
            trig[aid] = x
    for aid, cx in trig.items():
        a = TABLE.atoms[aid]
        sa = enc.vars.get(a.meta)
        sx = num(model.eval(sa, model_completion=True)) if sa is not None else None
        (m, (b, _)), = a.args[0].t.items()
        if sx is not None and len(m) == 1 and TABLE.atoms[m[0][0]].kind == "var":
            var = TABLE.atoms[m[0][0]]
            x = math.atan2(sx, cx) / b
            per = 2 * math.pi / b
            while x < var.lo and x + per <= var.hi:
                x += per
            while x > var.hi and x - per >= var.lo:
                x -= per
            out[var.name] = x
    return out
