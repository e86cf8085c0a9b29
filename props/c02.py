"""C02 chirp mass, beta, fn_dot."""
from engine.core import scenario, u
from props.common import *

RANGES = "m in [1e-3,1e9] Msun, f in [1e-12,1e3] Hz, e in [0,0.9999]"


@scenario(bounds="scalar and 3-element arrays; three mass units; " + RANGES)
def masses(x):
    L = x.lw.utils
    shp = x.choice("shape", [None, (3,)])
    mu, mu2 = x.choice("units", [(u.Msun, u.Msun), (u.kg, u.kg), (u.Mjup, u.Mjup), (u.Msun, u.kg), (u.kg, u.Mjup)])
    scalars = (False, False) if shp is None else x.choice("scalars", [(False, False), (True, False), (False, True)])
    m1, m2 = (x.real("m%d" % (j + 1), 1e-3, 1e9, u.Msun, None if scalars[j] else shp) for j in (0, 1))
    a, b = m1.to(mu), m2.to(mu2)
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    mc = L.chirp_mass(a, b)
    be = L.beta(a, b)
    x.close("chirp mass", mc, mchirp(k1, k2) * u.kg)
    x.close("chirp mass symmetric", L.chirp_mass(b, a), mc)
    x.close("beta", be, beta(k1, k2) * u.m**4 / u.s)
    x.close("beta symmetric", L.beta(b, a), be)
    if mu2 is mu:
        x.close("chirp mass of plain numbers", L.chirp_mass(a.value, b.value), (mchirp(k1, k2) * u.kg).to_value(mu))


@scenario(bounds="n in 1..6, scalars and (2,)-arrays; " + RANGES)
def drift(x):
    L = x.lw.utils
    shp = x.choice("shape", [None, (2,)])
    n = x.choice("n", [1, 2, 3, 6])
    sm, se = (False, False) if shp is None else x.choice("scalars", [(False, False), (True, False), (False, True)])
    m1, m2 = x.real("m1", 1e-3, 1e9, u.Msun, None if sm else shp), x.real("m2", 1e-3, 1e9, u.Msun, None if sm else shp)
    f = x.real("f", 1e-12, 1e3, u.Hz, shp)
    e = x.real("e", 0, 0.9999, None, None if se else shp)
    k1, k2, fh = si(m1, u.kg), si(m2, u.kg), si(f, u.Hz)
    a = kepler_a(fh, k1, k2)
    # f ~ a^(-3/2):  df/dt = -3/2 f/a da/dt,  da/dt = -beta F / a^3
    want = n * 1.5 * fh / a * beta(k1, k2) * F(e) / a**3
    got = L.fn_dot(m_c=L.chirp_mass(m1, m2), f_orb=f, e=e, n=n)
    x.close("fn_dot", got, want * u.Hz / u.s)
    got2 = L.fn_dot(L.chirp_mass(m2, m1), f.to(1 / u.yr), e, n)
    x.close("fn_dot in other units", got2, want * u.Hz / u.s)
    x.true("positive", got > 0 * u.Hz / u.yr)
    x.close("peters_f", L.peters_f(e), F(e))


@scenario(bounds="arrays of harmonics broadcast against frequencies; one entry below 1 in each position")
def harmonics(x):
    L = x.lw.utils
    mc = x.real("mc", 1e-3, 1e9, u.Msun)
    f = x.real("f", 1e-12, 1e3, u.Hz)
    e = x.real("e", 0, 0.9999)
    np = x.np
    ns = np.array([1, 2, 3, 8])
    got = L.fn_dot(mc, f, e, ns)
    x.shape("shape", got, (4,))
    for i, n in enumerate([1, 2, 3, 8]):
        x.close("harmonic", got[i], fdot_n(si(mc, u.kg), si(f, u.Hz), e, n) * u.Hz / u.s)
    bad = x.choice("bad", [0, -1, -3])
    pos = x.choice("position", [0, 1, 2])
    v = [2, 1, 5]
    v[pos] = bad
    x.raises("n<1 in array", ValueError, L.fn_dot, mc, f, e, np.array(v))
    x.raises("n<1", ValueError, L.fn_dot, mc, f, e, bad)


@scenario(bounds="12 sources; " + RANGES)
def many(x):
    L = x.lw.utils
    k = 12
    m1, m2 = x.real("m1", 1e-3, 1e9, u.Msun, (k,)), x.real("m2", 1e-3, 1e9, u.Msun, (k,))
    f, e = x.real("f", 1e-12, 1e3, u.Hz, (k,)), x.real("e", 0, 0.9999, None, (k,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    mc = L.chirp_mass(m1, m2)
    x.shape("shape", mc, (k,))
    x.close("chirp mass", mc, mchirp(k1, k2) * u.kg)
    x.close("beta", L.beta(m1, m2), beta(k1, k2) * u.m**4 / u.s)
    got = L.fn_dot(mc, f, e, 3)
    for i in range(k):
        x.close("fn_dot", got[i], fdot_n(mchirp(k1[i], k2[i]), si(f, u.Hz)[i], e[i], 3) * u.Hz / u.s)
