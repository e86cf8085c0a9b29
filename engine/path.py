"""Path exploration: depth-first over the forks, feasibility decided by z3 (and by concrete witnesses)."""
import math
import random
import time

from . import smt, sym
from .sym import CTX, TABLE, Cond, Poly, TRUE, FALSE, INF, cnot, eval_cond, eval_cond_tol, NoValue


class PathAbort(BaseException):
    """The current path became infeasible (failed assumption)."""


class Budget(BaseException):
    pass


def ckey(c):
    if c.op in ("and", "or", "not"):
        return (c.op,) + tuple(ckey(x) for x in c.args)
    if c.op in ("true", "false"):
        return c.op
    mx = max(abs(v[0]) for v in c.p.t.values())
    return (c.op, tuple(sorted((m, "%.10e" % (v[0] / mx)) for m, v in c.p.t.items())))


def norm_sign(p):
    p = sym.sign_form(p)
    l = sym._lead(p)
    c = p.t[l][0]
    return (1 if c > 0 else -1), (frozenset(p.t), tuple(sorted((m, "%.9e" % (v[0] / abs(c) * (1 if c > 0 else -1)))
                                                             for m, v in p.t.items())))


class Path:
    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.ex = explorer
        self.decisions = []        # (kind, value, alternatives_left)
        self.conds = []
        self.bounds = {}
        self.known = {}
        self.signs = {}
        self.samples = None
        self.notes = []
        self.lin_memo = {}
        self.depth, self.ckeys_hash = 0, 0

    def ask(self, extra, strategy, timeout):
        """satisfiability of the path condition plus extra conditions (answers are shared between paths)"""
        key = (strategy, timeout, self.depth, self.ckeys_hash, tuple(ckey(c) for c in extra))
        r = self.ex.answers.get(key)
        if r is None:
            r, _, _ = smt.check(self.conds + list(extra), strategy, timeout, self.bounds, keep=False)
            self.ex.answers[key] = r
        return r

    # ----- facts
    def add(self, c):
        self.conds.append(c)
        self.depth += 1
        k = ckey(c)
        self.ckeys_hash = (hash((self.ckeys_hash, k)), hash((k, self.depth, self.ckeys_hash)))
        self._learn(c)
        if self.samples is not None:
            self.samples = [s for s in self.samples if self._holds(c, s)]

    def _learn(self, c):
        self.known[ckey(c)] = True
        self.known[ckey(cnot(c))] = False
        if c.op == "and":
            for x in c.args:
                self._learn(x)
            return
        if c.op not in ("lt", "le", "eq"):
            return
        p = c.p
        if c.op != "eq":
            s, k = norm_sign(p)
            # p < 0
            self.signs[k] = ("-" if s > 0 else "+") if c.op == "lt" else ("0-" if s > 0 else "0+")
        # single power of one atom against a constant -> bound
        ms = [m for m in p.t if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1:
            aid, q = ms[0][0]
            k = p.t[ms[0]][0]
            c0 = p.t.get((), (0.0, 0.0))[0]
            a = TABLE.atoms[aid]
            lo, hi = sym.atom_bounds(a)
            t = -c0 / k
            up = k > 0
            if q != 1:
                if lo < 0:
                    return
                if t <= 0:
                    return
                t = t ** (1.0 / float(q))
                if q < 0:
                    up = not up
            if c.op == "eq":
                self.bounds[aid] = (max(lo, t - abs(t) * 1e-15), min(hi, t + abs(t) * 1e-15))
            elif up:
                self.bounds[aid] = (lo, min(hi, t))
            else:
                self.bounds[aid] = (max(lo, t), hi)

    def note_sign(self, p, r):
        """a sign that follows from what is known on this path"""
        if not sym.sign_form(p).t:
            return
        s, k = norm_sign(p)
        self.signs.setdefault(k, r if s > 0 else {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[r])

    def sign_of(self, p):
        if not p.t:
            return "0"
        p = sym.sign_form(p)
        if not p.t:
            return "0"
        if p.is_const():
            return "+" if p.const() > 0 else "-"
        s, k = norm_sign(p)
        r = self.signs.get(k)
        if r is None:
            return None
        if s > 0:
            return r
        return {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[r]

    def sign_lin(self, p):
        """sign by a linear query under the path condition"""
        if not self.conds or len(p.t) > 12:
            return None
        p = sym.sign_form(p)
        if not p.t or p.is_const():
            return None
        s, k = norm_sign(p)
        memo = self.lin_memo
        key = (k, len(self.conds))
        if key in memo:
            r = memo[key]
        else:
            r = None
            # a sampled point decides which sign to try
            want = None
            for e in self.get_samples()[:8]:
                try:
                    v = sym.eval_poly(p, dict(e)) * s
                except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                    continue
                w = 1 if v > 0 else -1
                if want is None:
                    want = w
                elif want != w:
                    want = 0
                    break
            q = p if s > 0 else sym.pscale(p, -1.0)
            for w in ((want,) if want is not None else (1, -1)):
                if w == 0:
                    break
                # is  w*q < 0 (or <= 0) impossible?
                z = sym.pscale(q, float(w))
                a = self.ask([Cond("le", z)], "lin", 300)
                if a == "unsat":
                    r = "+" if w > 0 else "-"
                    break
                a = self.ask([Cond("lt", z)], "lin", 300)
                if a == "unsat":
                    r = "0+" if w > 0 else "0-"
                    break
            memo[key] = r
        if r is None:
            return None
        return r if s > 0 else {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[r]

    def _holds(self, c, s):
        try:
            return eval_cond(c, s)
        except (NoValue, OverflowError, ZeroDivisionError, ValueError):
            return False

    # ----- samples: concrete points satisfying the path so far
    def get_samples(self):
        if self.samples is None:
            self.samples = []
            rng = random.Random(self.ex.seed * 7919 + 13)
            for _ in range(self.ex.n_samples):
                env = {}
                for a in TABLE.vars.values():
                    env[a.id] = draw(rng, a)
                if all(self._holds(c, env) for c in self.conds):
                    self.samples.append(env)
            self.sample_vars = set(TABLE.vars)
        elif len(self.sample_vars) != len(TABLE.vars):
            rng = random.Random(self.ex.seed * 104729 + len(TABLE.vars))
            for name, a in TABLE.vars.items():
                if name not in self.sample_vars:
                    for s in self.samples:
                        s[a.id] = draw(rng, a)
            self.sample_vars = set(TABLE.vars)
        return self.samples

    # ----- deciding
    def decide(self, c):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        # boolean structure: decide the parts (python semantics of and/or on arrays never builds these in the code)
        if c.op == "not":
            return not self.decide(c.args[0])
        if c.op == "and":
            return all(self.decide(x) for x in c.args)
        if c.op == "or":
            return any(self.decide(x) for x in c.args)
        # sentinel comparisons: a derived value is never exactly an unrelated constant
        if c.op == "eq" and not self._forkable_eq(c):
            self.ex.notes.add("derived values are assumed different from exact sentinel constants")
            return False
        k = self.known.get(ckey(c))
        if k is not None:
            return k
        lo, hi = sym.poly_interval(c.p)
        if c.op == "lt":
            r = True if hi < 0 else (False if lo >= 0 else None)
        elif c.op == "le":
            r = True if hi <= 0 else (False if lo > 0 else None)
        else:
            r = False if (lo > 0 or hi < 0) else None
        if r is not None:
            return r
        s = self.sign_of(c.p)
        if s:
            if c.op == "lt" and s in ("+", "0+"):
                return False
            if c.op == "lt" and s == "-":
                return True
            if c.op == "le" and s in ("-", "0-"):
                return True
            if c.op == "le" and s == "+":
                return False
            if c.op == "eq" and s in ("+", "-"):
                return False
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, val, alts = self.prefix[i]
            self.decisions.append((kind, val, alts))
        else:
            val, alts = self._fork(c)
            self.decisions.append(("b", val, alts))
        self.add(c if val else cnot(c))
        return val

    def _forkable_eq(self, c):
        ms = [m for m in c.p.t if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and TABLE.atoms[ms[0][0][0]].kind == "var":
            return True
        # both sides inputs (difference of two single-variable terms)
        if len(ms) == 2 and () not in c.p.t and all(len(m) == 1 and TABLE.atoms[m[0][0]].kind == "var" for m in ms):
            return True
        if len(ms) == 1 and () not in c.p.t:
            return True
        if all(all(TABLE.atoms[a].kind == "fn" and TABLE.atoms[a].name in ("floor",) for a, _ in m) for m in ms):
            return True
        return False

    def _fork(self, c):
        self.ex.check_budget()
        nc = cnot(c)
        t_ok = f_ok = None
        # where rounding decides between derived values a sampled point is no witness
        plain = all(TABLE.atoms[a].kind == "var" for m in c.p.t for a, _ in m) if c.p is not None else False
        for s in self.get_samples():
            try:
                v = eval_cond(c, s) if plain else eval_cond_tol(c, s)
            except (NoValue, OverflowError, ZeroDivisionError, ValueError):
                continue
            if v:
                t_ok = True
            elif v is not None:
                f_ok = True
            if t_ok and f_ok:
                break
        if t_ok is None:
            t_ok = self.feasible(c)
            if not t_ok:
                return False, []
        if f_ok is None:
            f_ok = self.feasible(nc)
            if not f_ok:
                return True, []
        return True, [False]

    def feasible(self, c):
        if self.ask([c], "lin", self.ex.t_feas) == "unsat":
            return False
        return self.ask([c], "nra", self.ex.t_feas) != "unsat"

    def choice(self, n):
        """enumerate 0..n-1"""
        i = len(self.decisions)
        if i < len(self.prefix):
            kind, val, alts = self.prefix[i]
        else:
            val, alts = 0, list(range(1, n))
        self.decisions.append(("c", val, alts))
        return val

    def assume(self, c):
        c = sym.as_cond(c)
        if c.op == "true":
            return
        if c.op == "false":
            raise PathAbort()
        k = self.known.get(ckey(c))
        if k is True:
            return
        if k is False:
            raise PathAbort()
        self.add(c)
        if not self.get_samples():
            if self.ask([], "nra", self.ex.t_feas) == "unsat":
                raise PathAbort()


def draw(rng, a):
    lo, hi = a.lo, a.hi
    if a.integer:
        return float(rng.randint(int(lo), int(hi)))
    r = rng.random()
    if r < 0.03:
        return lo
    if r < 0.06:
        return hi
    if lo > 0 and hi / lo > 50 and rng.random() < 0.8:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    if lo == 0 and hi > 0 and rng.random() < 0.3:
        return hi * 10 ** rng.uniform(-6, 0)
    return rng.uniform(lo, hi)


class Explorer:
    def __init__(self, seed=1, max_paths=4000, n_samples=300, t_feas=1500, deadline=None):
        self.seed, self.max_paths, self.n_samples, self.t_feas = seed, max_paths, n_samples, t_feas
        self.deadline = deadline
        self.notes = set()
        self.answers = {}
        self.n_paths = 0
        self.forks = 0

    def check_budget(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget exceeded")

    def run(self, fn):
        """fn(path) is executed once per feasible path; yields (path, outcome)"""
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.check_budget()
            if self.n_paths >= self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            path = Path(prefix, self)
            CTX.path = path
            try:
                try:
                    out = fn(path)
                except PathAbort:
                    out = ("abort", None)
            finally:
                CTX.path = None
            d = path.decisions
            for i in range(len(d) - 1, len(prefix) - 1, -1):
                kind, val, alts = d[i]
                for alt in reversed(alts):
                    stack.append([(k, v, []) for k, v, _ in d[:i]] + [(kind, alt, [])])
                if alts:
                    self.forks += 1
            if out[0] != "abort":
                self.n_paths += 1
            yield path, out
