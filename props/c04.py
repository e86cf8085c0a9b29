"""C04 c_0, get_a_from_ecc, de_dt."""
from engine.core import scenario, u
from props.common import *

R = "a0 in [1e-6,1e4] AU, e in [1e-4,0.9999], masses in [1e-3,1e9] Msun"


@scenario(bounds="scalars and 2-element arrays; " + R)
def track(x):
    L = x.lw.utils
    shp = x.choice("shape", [None, (2,)])
    a0 = x.real("a0", 1e-6, 1e4, u.AU, shp)
    au = x.choice("unit", [u.AU, u.km, u.Rsun])
    e0 = x.real("e0", 1e-4, 0.9999, None, shp)
    e = x.real("e", 1e-4, 0.9999, None, shp)
    c0 = L.c_0(a0.to(au), e0)
    x.close("c_0", c0, a0 * c0_over_a(e0))
    x.close("returns the initial separation", L.get_a_from_ecc(e0, c0), a0)
    x.close("Eq. 5.11", L.get_a_from_ecc(e, c0), a0 * c0_over_a(e0) / c0_over_a(e))
    x.close("c_0 constant along the track", L.c_0(L.get_a_from_ecc(e, c0), e), c0)


@scenario(bounds="single source; " + R)
def derivative(x):
    """d a / d t through the track equals Peters' da/dt, for the coded de/dt"""
    U, E = x.lw.utils, x.lw.evol
    m1, m2 = x.real("m1", 1e-3, 1e9, u.Msun), x.real("m2", 1e-3, 1e9, u.Msun)
    a0 = x.real("a0", 1e-6, 1e4, u.AU)
    e0 = x.real("e0", 1e-4, 0.9999)
    e = x.real("e", 1e-4, 0.9999)
    c0 = U.c_0(a0, e0)
    be = U.beta(m1, m2)
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    rate = E.de_dt(e, 0.0, be.to_value(u.m**4 / u.s), c0.to_value(u.m))
    a = si(a0, u.m) * c0_over_a(e0) / c0_over_a(e)
    # Peters 1964 Eq. 5.7
    want = -19 / 12 * beta(k1, k2) / (a**4 * pw(1 - e**2, 5, 2)) * (e + 121 / 304 * e**3)
    x.close("de/dt on the track", rate, want)
    x.true("negative", rate < 0)
    # chain rule  da/dt = (da/de)(de/dt)
    dade = x.derivative(lambda v: U.get_a_from_ecc(v, c0).to_value(u.m), e)
    x.close("chain rule", dade * rate, -beta(k1, k2) * F(e) / a**3, rtol=1e-5)
    x.close("independent of time argument", E.de_dt(e, 12345.0, be.to_value(u.m**4 / u.s), c0.to_value(u.m)), rate)
