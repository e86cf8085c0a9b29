"""C11 merger times."""
import numpy as np
from engine.core import scenario, u
from props.common import *

R = "m in [1e-3,1e6] Msun, a in [1e-6,1e3] AU or f in [1e-9,10] Hz, e in [0,0.99995], tolerances: small in [0.01,0.5], large in [0.6,0.9999]"
ASSUMPTIONS = ["the Peters 5.14 integral is one uninterpreted value per (integrand, limits); the integrand is compared symbolically",
               "fitted factor: coefficients as documented in the function"]

COEF = [-1.20317749e+03, 5.67211219e+03, -1.13935479e+04, 1.27306422e+04, -8.66281737e+03, 3.69447796e+03,
        -9.79864734e+02, 1.54873214e+02, -1.32267683e+01, 5.32494018e-01, 9.93382093e-01]


def fit(e):
    corr = 0
    for k, cc in enumerate(COEF):
        corr = corr + cc * e**(10 - k) if k < 10 else corr + cc
    return (1 + 0.27 * e**10 + 0.33 * e**20 + 0.2 * e**1000) * pw(1 - e**2, 7, 2) / corr


def c0(a, e):
    return a * c0_over_a(e)


def integrand(e):
    return pw(e, 29, 19) * pw(1 + 121 / 304 * e**2, 1181, 2299) / pw(1 - e**2, 3, 2)


def expected(x, a, be, e, st, lt, exact):
    """seconds"""
    if e == 0.0:
        return a**4 / (4 * be)
    if e < st:
        return c0(a, e)**4 / (4 * be) * pw(e, 48, 19)
    if e > lt:
        return c0(a, e)**4 / (4 * be) * pw(e, 48, 19) * 768 / 425 / pw(1 - e**2, 1, 2) * pw(1 + 121 / 304 * e**2, 3480, 2299)
    if exact:
        return 12 / 19 * c0(a, e)**4 / be * x.quad(integrand, 0.0, e)
    return a**4 / (4 * be) * fit(e)


def inputs(x, form, shp):
    m1, m2 = x.real("m1", 1e-3, 1e6, u.Msun, shp), x.real("m2", 1e-3, 1e6, u.Msun, shp)
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    kw = {}
    if "a" in form:
        kw["a_i"] = x.real("a", 1e-6, 1e3, u.AU, shp)
        a = si(kw["a_i"], u.m)
    else:
        kw["f_orb_i"] = x.real("f", 1e-9, 10, u.Hz, shp)
        a = kepler_a(si(kw["f_orb_i"], u.Hz), k1, k2)
    be = beta(k1, k2)
    if "m" in form:
        kw.update(m_1=m1, m_2=m2)
    if "b" in form:
        be = x.real("beta", 1e12, 1e36, None, shp)
        kw["beta"] = be * u.m**4 / u.s
    return kw, a, be


@scenario(bounds="circular: scalars and 2 sources, every input form; " + R)
def circular(x):
    E = x.lw.evol
    form = x.choice("inputs", ["m a", "m f", "b a", "b m a"])
    shp = x.choice("shape", [None, (2,)])
    kw, a, be = inputs(x, form, shp)
    t = E.get_t_merge_circ(**kw)
    x.close("circular", t, a**4 / (4 * be) * u.s)
    x.true("positive", t.value > 0)
    e0 = x.np.zeros_like(a) if shp else 0.0
    x.close("e = 0", E.get_t_merge_ecc(ecc_i=e0, **kw), a**4 / (4 * be) * u.s)


@scenario(bounds="one source (scalar), any eccentricity, default or symbolic tolerances; " + R, weight=3)
def scalar(x):
    E = x.lw.evol
    form, exact = x.choice("inputs, exact", [("m a", True), ("m f", False), ("b a", True), ("b a", False)])
    kw, a, be = inputs(x, form, None)
    e = x.real("e", 0, 0.99995)
    if x.choice("tolerances", ["default", "given"]) == "given":
        st, lt = x.real("st", 0.01, 0.5), x.real("lt", 0.6, 0.9999)
        tol = dict(small_e_tol=st, large_e_tol=lt)
    else:
        st, lt, tol = 0.15, 1 - 1e-4, {}
    t = E.get_t_merge_ecc(ecc_i=e, exact=exact, **tol, **kw)
    w = expected(x, a, be, e, st, lt, exact)
    x.close("merger time", t, w * u.s)
    if exact or e < st or e > lt:
        x.true("positive", t.value > 0)


@scenario(bounds="two sources (array), any eccentricities, default or symbolic tolerances; " + R, weight=4)
def arrays(x):
    E = x.lw.evol
    form, exact = x.choice("inputs, exact", [("m a", True), ("b m f", False), ("b a", True), ("b a", False)])
    kw, a, be = inputs(x, form, (2,))
    e = x.real("e", 0, 0.99995, None, (2,))
    if x.choice("tolerances", ["default", "given"]) == "given":
        st, lt = x.real("st", 0.01, 0.5), x.real("lt", 0.6, 0.9999)
        tol = dict(small_e_tol=st, large_e_tol=lt)
    else:
        st, lt, tol = 0.15, 1 - 1e-4, {}
    t = E.get_t_merge_ecc(ecc_i=e, exact=exact, **tol, **kw)
    x.shape("shape", t, (2,))
    for i in range(2):
        x.close("merger time", t[i], expected(x, a[i], be[i], e[i], st, lt, exact) * u.s)


def either(x, label, t, w1, w2):
    """on the border between two formulae either of them is right"""
    t = si(t, u.s)
    if bool(t <= w1 * (1 + 1e-9)) and bool(t >= w1 * (1 - 1e-9)):
        return
    x.close(label, t, w2)


@scenario(bounds="eccentricities equal to a tolerance, next to other ones, default or symbolic tolerances; " + R, weight=2)
def at_the_tolerances(x):
    E = x.lw.evol
    form, exact = x.choice("inputs, exact", [("b a", True), ("b a", False)])
    shp = x.choice("shape", [None, (2,)])
    kw, a, be = inputs(x, form, shp)
    if exact or x.choice("tolerances", ["default", "given"]) == "given":
        st, lt = x.real("st", 0.01, 0.5), x.real("lt", 0.6, 0.9999)
        tol = dict(small_e_tol=st, large_e_tol=lt)
    else:
        st, lt, tol = 0.15, 1 - 1e-4, {}
    which = x.choice("eccentricity", ["small", "large"])
    e = st if which == "small" else lt
    # (the simpler formula first)
    both = lambda a, be: (expected(x, a, be, e, st + 1e-3, lt + 1e-3, exact), expected(x, a, be, e, st - 1e-3, lt - 1e-3, exact))[::1 if which == "small" else -1]
    if shp is None:
        t = E.get_t_merge_ecc(ecc_i=e, exact=exact, **tol, **kw)
        either(x, "merger time at the tolerance", t, *both(a, be))
    else:
        e2 = x.real("e2", 0.51, 0.59)
        t = E.get_t_merge_ecc(ecc_i=x.obj(np.array([e, e2])), exact=exact, **tol, **kw)
        either(x, "merger time at the tolerance", t[0], *both(a[0], be[0]))
        x.close("merger time of the other source", si(t[1], u.s), expected(x, a[1], be[1], e2, 0.5, 0.6, exact))


@scenario(bounds="the default is the exact integral; " + R)
def default_exact(x):
    E = x.lw.evol
    kw, a, be = inputs(x, "b a", None)
    e = x.real("e", 0.16, 0.999)
    x.close("default exact", E.get_t_merge_ecc(ecc_i=e, **kw), expected(x, a, be, e, 0.15, 1 - 1e-4, True) * u.s)


@scenario(bounds="fitted factor for e in [0, 0.9999], positive on [0.15, 0.9999]")
def fitted(x):
    E = x.lw.evol
    e = x.real("e", 0, 0.9999)
    x.close("factor", E.t_merge_mandel_fit(e), fit(e))
    ea = x.real("ea", 0, 0.9999, None, (3,))
    f = E.t_merge_mandel_fit(ea)
    x.shape("shape", f, (3,))
    for i in range(3):
        x.close("factor of element", f[i], fit(ea[i]))


@scenario(bounds="every incomplete combination of arguments")
def rejected(x):
    E = x.lw.evol
    kw, a, be = inputs(x, "b m a", (2,))
    f = x.real("f", 1e-9, 10, u.Hz, (2,))
    e = x.real("e", 0, 0.9, None, (2,))
    m1, m2, b, aa = kw["m_1"], kw["m_2"], kw["beta"], kw["a_i"]
    for fn in (E.get_t_merge_circ, lambda **k: E.get_t_merge_ecc(ecc_i=e, **k), E.check_mass_freq_input):
        x.raises("no mass", ValueError, fn, a_i=aa)
        x.raises("one mass", ValueError, fn, a_i=aa, m_1=m1)
        x.raises("other mass", ValueError, fn, a_i=aa, m_2=m2)
        x.raises("no separation", ValueError, fn, m_1=m1, m_2=m2)
        x.raises("beta only", ValueError, fn, beta=b)
        x.raises("frequency without masses", ValueError, fn, beta=b, f_orb_i=f)
        x.raises("frequency with one mass", ValueError, fn, beta=b, f_orb_i=f, m_2=m2)
