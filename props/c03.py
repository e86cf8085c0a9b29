"""C03 peters_g / peters_f."""
from engine.core import scenario, u
from props.common import *

ASSUMPTIONS = ["scipy's Bessel function values are free reals in [-1,1] (same value for same order and argument); J_k(0) exact"]


@scenario(bounds="every integer n in 1..20 (quick) / 1..60 (thorough), e in [0, 0.9999], scalar")
def g_scalar(x):
    L = x.lw.utils
    n = x.choice("n", list(range(1, 21)) if x.tier == "quick" else list(range(1, 61)))
    e = x.real("e", 0, 0.9999)
    g = L.peters_g(n, e)
    w = g_ne(x, n, e)
    x.close("Eq. 20", g, w, scale=n**4 * 1e-3)
    x.true("non-negative", g >= 0)
    g0 = L.peters_g(n, 0.0)
    x.close("circular", g0, 1.0 if n == 2 else 0.0, scale=1.0)


@scenario(bounds="non-integer-free: symbolic integer n in [1, 200], e in [0.001, 0.9999]; identity in n")
def g_symbolic_n(x):
    L = x.lw.utils
    n = x.real("n", 1, 200, integer=True)
    e = x.real("e", 0.001, 0.9999)
    x.close("Eq. 20", L.peters_g(n, e), g_ne(x, n, e), scale=n**4 * 1e-3)


@scenario(bounds="arrays: n of shape (3,) against e of shape (2,1); int and float harmonics")
def g_array(x):
    L = x.lw.utils
    np = x.np
    ns = x.choice("harmonics", [[1, 2, 3], [5, 2, 9], [2, 2, 4]])
    as_float = x.choice("float harmonics", [False, True])
    n = np.array(ns) if not as_float else np.array([float(k) for k in ns])
    e = x.real("e", 0, 0.9999, None, (2, 1))
    g = L.peters_g(n, e)
    x.shape("shape", g, (2, 3))
    for i in range(2):
        for j in range(3):
            x.close("element", g[i, j], g_ne(x, ns[j], e[i, 0]), scale=ns[j]**4 * 1e-3)


@scenario(bounds="e in [0, 0.9999], pairs e1 < e2")
def enhancement(x):
    L = x.lw.utils
    e = x.real("e", 0, 0.9999)
    f = L.peters_f(e)
    x.close("F(e)", f, F(e))
    x.true("positive", f > 0)
    x.true("at least 1", f**2 >= 1)
    x.close("F(0)", L.peters_f(0.0), 1.0)
    ei = x.real("ei", 1e-4, 0.9999)
    x.true("increasing (positive derivative)", x.derivative(L.peters_f, ei) > 0)
    ea = x.real("ea", 0, 0.9999, None, (3,))
    fa = L.peters_f(ea)
    for i in range(3):
        x.close("array", fa[i], F(ea[i]))
