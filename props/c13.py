"""C13 evolve_f_orb_circ and determine_stationarity."""
from engine.core import scenario, u
from props.common import *

R = "m in [1e-2,1e4] Msun, f in [1e-7,1] Hz, e in [0,0.9995], time in [0,2] decay times of one of the sources, tolerance in [1e-4,1]"
ASSUMPTIONS = ["times closer than 1e-6 (relative) to the merger, and changes closer than 1e-6 to the tolerance, are outside"]


def setup(x, n, shared=True):
    m1, m2 = x.real("m1", 1e-2, 1e4, u.Msun, (n,)), x.real("m2", 1e-2, 1e4, u.Msun, (n,))
    f = x.real("f", 1e-7, 1, u.Hz, (n,))
    e = x.real("e", 0, 0.9995, None, (n,))
    mc = mchirp(si(m1, u.kg), si(m2, u.kg))
    return m1, m2, f, e, mc


def rate(mc, e):
    return 2**(32 / 3) * PI**(8 / 3) / (5 * C**5) * pw(G * mc, 5, 3) * F(e)


def decay(x, f, mc, e, t):
    """(remaining f^(-8/3), merged)"""
    f0 = si(f, u.Hz)
    d = pw(f0, -8, 3) - rate(mc, e) * t
    x.assume(abs(d) > 1e-6 * pw(f0, -8, 3))
    return d, bool(d < 0)


@scenario(bounds="1-3 sources evolved for one common time or one time each; " + R, weight=2)
def final_frequency(x):
    E = x.lw.evol
    n, own = x.choice("sources, own times", [(1, False), (2, False), (2, True), (3, True)])
    m1, m2, f, e, mc = setup(x, n)
    if own:
        s = x.real("s", 0, 2, None, (n,))
        t = s * pw(si(f, u.Hz), -8, 3) / rate(mc, e)
        T = [t[i] for i in range(n)]
    else:
        s = x.real("s", 0, 2)
        t = s * pw(si(f[0], u.Hz), -8, 3) / rate(mc[0], e[0])
        T = [t] * n
    tu, mf = x.choice("unit, marker", [(u.s, None), (u.yr, 5.0)])
    kw = {} if mf is None else {"merge_f": mf * u.Hz}
    out = E.evolve_f_orb_circ(f_orb_i=f, m_c=mc * u.kg, t_evol=(t * u.s).to(tu), ecc_i=e, **kw)
    x.shape("shape", out, (n,))
    for i in range(n):
        d, merged = decay(x, f[i], mc[i], e[i], T[i])
        x.close("merged marker" if merged else "final frequency", out[i].to(u.Hz), (mf or 1e9) * u.Hz if merged else pw(d, -3, 8) * u.Hz)


@scenario(bounds="1-3 circular sources with the default eccentricity; " + R)
def default_circular(x):
    E = x.lw.evol
    n = x.choice("sources", [1, 2])
    m1, m2, f, e, mc = setup(x, n)
    s = x.real("s", 0, 2)
    t = s * pw(si(f[0], u.Hz), -8, 3) / rate(mc[0], 0.0)
    out = E.evolve_f_orb_circ(f_orb_i=f, m_c=mc * u.kg, t_evol=t * u.s)
    for i in range(n):
        d, merged = decay(x, f[i], mc[i], 0.0, t)
        x.close("final frequency", out[i].to(u.Hz), 1e9 * u.Hz if merged else pw(d, -3, 8) * u.Hz)


@scenario(bounds="1-2 sources, masses given individually or as chirp mass or both; " + R, weight=3)
def stationarity(x):
    E = x.lw.evol
    n, form = x.choice("sources, masses", [(1, "m_1, m_2"), (2, "m_1, m_2"), (2, "m_c"), (1, "all")])
    m1, m2, f, e, mc = setup(x, n)
    s = x.real("s", 0, 2)
    t = s * pw(si(f[0], u.Hz), -8, 3) / rate(mc[0], e[0])
    tol = None
    kw = {}
    if x.choice("tolerance", ["default", "given"]) == "given":
        tol = x.real("tol", 1e-4, 1)
        kw["stat_tol"] = tol
    else:
        tol = 1e-2
    if form == "m_c":
        kw["m_c"] = mc * u.kg
    elif form == "all":
        # the chirp mass overrides the individual masses
        kw.update(m_c=mc * u.kg, m_1=3 * m1, m_2=m2 / 7)
    else:
        kw.update(m_1=m1, m_2=m2)
    # decide the boundary first, with a margin
    want = []
    for i in range(n):
        d, merged = decay(x, f[i], mc[i], e[i], t)
        if merged:
            want.append(False)
        else:
            f0 = si(f[i], u.Hz)
            change = pw(d, -3, 8) / f0 - 1
            x.assume(abs(change - tol) > 1e-6)
            want.append(bool(change <= tol))
    out = E.determine_stationarity(f_orb_i=f, t_evol=t * u.s, ecc_i=e, **kw)
    x.shape("shape", out, (n,))
    for i in range(n):
        x.require("stationary" if want[i] else "not stationary", bool(out[i]) == want[i], "labelled %s" % out[i])


@scenario(bounds="zero time; " + R)
def no_time(x):
    E = x.lw.evol
    m1, m2, f, e, mc = setup(x, 2)
    out = E.evolve_f_orb_circ(f_orb_i=f, m_c=mc * u.kg, t_evol=0 * u.s, ecc_i=e)
    x.close("unchanged", out, f)


@scenario(bounds="missing masses")
def rejected(x):
    E = x.lw.evol
    m1, m2, f, e, mc = setup(x, 2)
    k = dict(f_orb_i=f, t_evol=1 * u.yr, ecc_i=e)
    x.raises("no masses", ValueError, E.determine_stationarity, **k)
    x.raises("one mass", ValueError, E.determine_stationarity, m_1=m1, **k)
    x.raises("one mass", ValueError, E.determine_stationarity, m_2=m2, **k)


@scenario(bounds="7 sources with one time each, every other one merging; " + R, weight=2)
def many(x):
    E = x.lw.evol
    n = 7
    m1, m2, f, e, mc = setup(x, n)
    s = x.np.array([x.real("s%d" % i, *((0, 0.9) if i % 2 else (1.1, 2))) for i in range(n)])
    T = s * pw(si(f, u.Hz), -8, 3) / rate(mc, e)
    out = E.evolve_f_orb_circ(f_orb_i=f, m_c=mc * u.kg, t_evol=T * u.s, ecc_i=e, merge_f=7 * u.Hz)
    x.shape("shape", out, (n,))
    for i in range(n):
        d, merged = decay(x, f[i], mc[i], e[i], T[i])
        x.close("merged marker" if merged else "final frequency", out[i].to(u.Hz), 7 * u.Hz if merged else pw(d, -3, 8) * u.Hz)
    label = E.determine_stationarity(f_orb_i=f, t_evol=T * u.s, ecc_i=e, m_1=m1, m_2=m2, stat_tol=1e4)
    x.shape("shape", label, (n,))
    for i in range(n):
        x.require("merging sources are evolving", bool(label[i]) == bool(i % 2), "source %d" % i)
