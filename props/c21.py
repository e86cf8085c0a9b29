"""C21 snr_circ_evolving."""
from engine.core import scenario, u
from props.common import *

R = "m in [1,1e6] Msun, f in [1e-6,10] Hz (orbit decaying), D in [1e-3,1e7] kpc, t_obs in [1e-3,1e9] s, any positive S_n"
ASSUMPTIONS = ["the sensitivity is an uninterpreted positive function of frequency (C14-C18)",
               "orbital frequencies below 100 Hz (LEGWORK's marker of a merged binary)",
               "cases closer than 1e-6 (relative) to the switch between observation and merger are outside"]


def inputs(x, nx, t_shared=True):
    m1, m2 = x.real("m1", 10, 1e6, u.Msun, (nx,)), x.real("m2", 10, 1e6, u.Msun, (nx,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    f = x.real("f", 1e-6, 10, u.Hz, (nx,))
    d = x.real("d", 1e-3, 1e7, u.kpc, (nx,))
    a = kepler_a(si(f, u.Hz), k1, k2)
    be = beta(k1, k2)
    return m1, m2, f, d, k1, k2, a, be, a**4 / (4 * be)


def span(x, tm, tobs):
    """observed time of each source, decided before the code runs"""
    out = []
    for t in tm:
        merges = apart(x, t - 1.0, tobs, 1e-6 * (t + tobs))
        late = apart(x, t, 1.0, 1e-6 * t)
        out.append((0.0 * t if late else t - 1.0) if merges else tobs)
    return out


def reference(x, k1, k2, dist, a, be, te, n):
    """SNR^2 of one source by the trapezoid rule on the evenly spaced times of the observed inspiral"""
    mc = mchirp(k1, k2)
    F_, Y = [], []
    for j in range(n):
        d4 = a**4 - 4 * be * (te * j / (n - 1))
        fo = pw(G * (k1 + k2), 1, 2) / (2 * PI) / pw(d4, 3, 8)
        F_.append(2 * fo)
        # h_c^2 / (f^2 S) = h_0^2 / (fdot S)
        Y.append(h0n2(x, mc, dist, fo, 0.0, 2, 1.0) / fdot_n(mc, fo, 0.0, 2) / sn(x, 2 * fo))
    s = None
    for j in range(n - 1):
        w = (F_[j + 1] - F_[j]) * (Y[j + 1] + Y[j]) / 2
        s = w if s is None else s + w
    # the differences of nearly equal frequencies carry the rounding error of the frequencies
    sc = (F_[-1] + F_[0]) * (Y[-1] + Y[0])
    return s, sc


def compare(x, snr, args, te, nx, n, tag=""):
    m1, m2, f, d, k1, k2, a, be, tm = args
    x.shape("shape" + tag, snr, (nx,))
    for i in range(nx):
        s, sc = reference(x, k1[i], k2[i], si(d, u.m)[i], a[i], be[i], te[i], n)
        x.close("integral over the observed inspiral" + tag, snr[i]**2, s, rtol=1e-5, scale=1e-5 * sc)


@scenario(bounds="1-2 sources, 2-4 steps, merger times given (correct) or found, supplied curve or instrument settings; " + R, weight=4)
def integral(x):
    S = x.lw.snr
    nx, n = x.choice("sources, steps", [(1, 3), (2, 2), (1, 2)] + ([(1, 4), (2, 3)] if x.tier == "thorough" else []))
    args = inputs(x, nx)
    m1, m2, f, d, k1, k2, a, be, tm = args
    t = x.real("t_obs", 1e-3, 1e9, u.s)
    te = span(x, tm, si(t, u.s))
    kw = dict(m_1=m1, m_2=m2, f_orb_i=f, dist=d, t_obs=t, n_step=n)
    if x.choice("merger time", ["given", "found"]) == "given":
        kw["t_merge"] = (x.np.array([tm[i] for i in range(nx)]) * u.s).to(u.Myr)
    s = x.choice("sensitivity", ["supplied", SETTINGS[0], SETTINGS[3]])
    calls = psd_stub(x)
    if s == "supplied":
        snr = S.snr_circ_evolving(interpolated_sc=curve(x), **kw)
        x.require("the supplied curve is used", not calls, "power_spectral_density evaluated")
    else:
        snr = S.snr_circ_evolving(**kw, **s)
        settings_ok(x, calls, t, **s)
    compare(x, snr, args, te, nx, n)


@scenario(bounds="4 sources, 2 steps, every other one merging during the observation; 1 source, 6 steps; merger times given; " + R, weight=2)
def many(x):
    S = x.lw.snr
    nx, n = x.choice("sources, steps", [(4, 2), (1, 6)])
    args = inputs(x, nx)
    m1, m2, f, d, k1, k2, a, be, tm = args
    t = x.real("t_obs", 1e3, 1e9, u.s)
    for i in range(nx):
        x.assume(tm[i] > 2.0)
        x.assume(tm[i] - 1.0 < 0.99 * si(t, u.s) if i % 2 == 0 else tm[i] - 1.0 > 1.01 * si(t, u.s))
    te = span(x, tm, si(t, u.s))
    snr = S.snr_circ_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, t_obs=t, n_step=n, interpolated_sc=curve(x),
                              t_merge=(x.np.array([tm[i] for i in range(nx)]) * u.s).to(u.Myr))
    compare(x, snr, args, te, nx, n)
