"""C12 merger time of a batch = merger time of each source alone."""
from engine.core import scenario, u
from props.common import *
from props.c11 import inputs, R

ASSUMPTIONS = ["integral values are one uninterpreted value per (integrand, limits)"]


def compare(x, n, form, exact, emax=0.99995):
    E = x.lw.evol
    kw, a, be = inputs(x, form, (n,))
    e = x.real("e", 0, emax, None, (n,))
    t = E.get_t_merge_ecc(ecc_i=e, exact=exact, **kw)
    x.shape("shape", t, (n,))
    for i in range(n):
        one = {k: v[i:i + 1] for k, v in kw.items()}
        x.close("alone (array of one)", t[i], E.get_t_merge_ecc(ecc_i=e[i:i + 1], exact=exact, **one)[0])
        sc = {k: v[i] for k, v in kw.items()}
        x.close("alone (scalar)", t[i], E.get_t_merge_ecc(ecc_i=e[i], exact=exact, **sc))


@scenario(bounds="2 sources of every regime combination; " + R, weight=2)
def pairs(x):
    compare(x, 2, *x.choice("inputs, exact", [("m a", True), ("m f", False)]))


@scenario(bounds="3 sources of every regime combination in every order; " + R, weight=4)
def triples_exact(x):
    compare(x, 3, "b a", True)


@scenario(bounds="3 sources of every regime combination in every order, fitted; " + R, weight=4)
def triples_fit(x):
    compare(x, 3, "b a", False)


@scenario(bounds="4 sources, every regime combination; " + R, tier="thorough", weight=6, seconds=1500)
def quadruples(x):
    compare(x, 4, "b a", x.choice("exact", [True, False]))


REGIMES = [0.0, (0.2, 0.9), (0.01, 0.1), (0.9995, 0.99995), (0.3, 0.8), 0.0, (0.16, 0.95), (0.001, 0.05), (0.2, 0.5)]


@scenario(bounds="9 sources in one order of regimes (circular, small, intermediate and large eccentricities interleaved), and the reverse; " + R, weight=2)
def many(x):
    E = x.lw.evol
    n = len(REGIMES)
    kw, a, be = inputs(x, x.choice("inputs", ["m f", "b a"]), (n,))
    e = x.np.array([r if r == 0.0 else x.real("e%d" % i, *r) for i, r in enumerate(REGIMES)])
    if x.choice("order", ["as listed", "reversed"]) == "reversed":
        e = e[::-1]
    exact = x.choice("exact", [True, False])
    t = E.get_t_merge_ecc(ecc_i=e, exact=exact, **kw)
    x.shape("shape", t, (n,))
    for i in range(n):
        one = {k: v[i:i + 1] for k, v in kw.items()}
        x.close("alone", t[i], E.get_t_merge_ecc(ecc_i=e[i:i + 1], exact=exact, **one)[0])
