"""C01 Kepler inverse."""
from astropy import constants as c
from engine.core import scenario, u
import numpy as np

G = c.G.to_value(u.m**3 / u.kg / u.s**2)
MSUN = u.Msun.to(u.kg)
RANGES = "m in [1e-3,1e9] Msun, a in [1e-6,1e4] AU, f in [1e-12,1e3] Hz"


def si(q, unit):
    return q.to_value(unit)


@scenario(bounds="scalar inputs, four unit choices each; " + RANGES)
def kepler_scalar(x):
    L = x.lw.utils
    mu, mu2 = x.choice("mass units", [(u.Msun, u.Msun), (u.kg, u.kg), (u.Mjup, u.Mjup), (u.Msun, u.kg), (u.Mjup, u.Msun)])
    au = x.choice("a unit", [u.AU, u.Rsun, u.km])
    fu = x.choice("f unit", [u.Hz, u.mHz, 1 / u.yr])
    m1 = x.real("m1", 1e-3, 1e9, u.Msun).to(mu)
    m2 = x.real("m2", 1e-3, 1e9, u.Msun).to(mu2)
    a = x.real("a", 1e-6, 1e4, u.AU).to(au)
    f = x.real("f", 1e-12, 1e3, u.Hz).to(fu)
    GM = G * (si(m1, u.kg) + si(m2, u.kg))
    f1 = L.get_f_orb_from_a(a, m1, m2)
    a1 = L.get_a_from_f_orb(f, m1, m2)
    x.close("f from a: Kepler", (2 * np.pi * f1.to_value(u.Hz))**2 * si(a, u.m)**3, GM)
    x.close("a from f: Kepler", (2 * np.pi * si(f, u.Hz))**2 * a1.to_value(u.m)**3, GM)
    x.close("a(f(a)) = a", L.get_a_from_f_orb(f1, m1, m2), a)
    x.close("f(a(f)) = f", L.get_f_orb_from_a(a1, m1, m2), f)
    x.close("swap masses f", L.get_f_orb_from_a(a, m2, m1), f1)
    x.true("positive", x.np.logical_and(f1 > 0 * u.Hz, a1 > 0 * u.AU))


@scenario(bounds="arrays of 3 (and 2x2) elements; " + RANGES)
def kepler_array(x):
    L = x.lw.utils
    shp = x.choice("shape", [(3,), (2, 2), (1,)])
    s1, s2, sa = x.choice("scalars", [(False,) * 3, (True, True, False), (True, False, False), (False, True, False), (False, False, True)])
    mu, mu2, au = x.choice("units", [(u.Msun, u.Msun, u.AU), (u.Msun, u.kg, u.Rsun), (u.kg, u.Mjup, u.km)])
    m1 = x.real("m1", 1e-3, 1e9, u.Msun, None if s1 else shp).to(mu)
    m2 = x.real("m2", 1e-3, 1e9, u.Msun, None if s2 else shp).to(mu2)
    a = x.real("a", 1e-6, 1e4, u.AU, None if sa else shp).to(au)
    f1 = L.get_f_orb_from_a(a, m1, m2)
    x.shape("shape", f1, shp)
    GM = G * (si(m1, u.kg) + si(m2, u.kg))
    x.close("Kepler", (2 * np.pi * f1.to_value(u.Hz))**2 * si(a, u.m)**3, GM * np.ones(shp))
    x.close("inverse", L.get_a_from_f_orb(f1, m1, m2), a * np.ones(shp))
    f = x.real("f", 1e-12, 1e3, u.Hz, shp)
    a1 = L.get_a_from_f_orb(f, m1, m2)
    x.shape("shape a", a1, shp)
    x.close("inverse f", L.get_f_orb_from_a(a1, m1, m2), f)


@scenario(bounds="arrays of 14 elements; " + RANGES)
def many(x):
    L = x.lw.utils
    n = 14
    m1, m2 = x.real("m1", 1e-3, 1e9, u.Msun, (n,)), x.real("m2", 1e-3, 1e9, u.Msun, (n,))
    a, f = x.real("a", 1e-6, 1e4, u.AU, (n,)), x.real("f", 1e-12, 1e3, u.Hz, (n,))
    f1, a1 = L.get_f_orb_from_a(a, m1, m2), L.get_a_from_f_orb(f, m1, m2)
    x.shape("shape", f1, (n,))
    x.shape("shape", a1, (n,))
    GM = G * (si(m1, u.kg) + si(m2, u.kg))
    x.close("Kepler f", (2 * np.pi * f1.to_value(u.Hz))**2 * si(a, u.m)**3, GM)
    x.close("Kepler a", (2 * np.pi * si(f, u.Hz))**2 * a1.to_value(u.m)**3, GM)
