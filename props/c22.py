"""C22 snr_ecc_evolving."""
from engine.core import scenario, u
from props.common import *
from props.c10 import stub_t_merge
from props.c09 import rhs, tlow6, serial

R = ("m in [1e-2,1e4] Msun, f in [1e-6,1e-2] Hz, e in [0.01,0.6], D in [1e-3,1e7] kpc, observation and merger times up to "
     "0.18 circular merger times, any positive S_n and g(n, e)")
ASSUMPTIONS = ["the sensitivity is an uninterpreted positive function of frequency (C14-C18), g(n, e) likewise (C03, C07)",
               "scipy.odeint is the flow of the autonomous equation it is handed (value = function of equation, start, elapsed time)",
               "orbital frequencies stay below 100 Hz (LEGWORK's marker of a merged binary)",
               "the frequency increases along the inspiral (C04: de/dt < 0)",
               "cases closer than 1e-6 (relative) to the switch between observation and merger are outside"]


def inputs(x, nx):
    m1, m2 = x.real("m1", 1e-2, 1e4, u.Msun, (nx,)), x.real("m2", 1e-2, 1e4, u.Msun, (nx,))
    f = x.real("f", 1e-6, 1e-2, u.Hz, (nx,))
    e = x.real("e", 0.01, 0.6, None, (nx,))
    d = x.real("d", 1e-3, 1e7, u.kpc, (nx,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    a = kepler_a(si(f, u.Hz), k1, k2)
    return dict(m_1=m1, m_2=m2, f_orb_i=f, ecc=e, dist=d), k1, k2, a, beta(k1, k2), e, si(d, u.m)


def span(x, tm, tobs):
    """observed time of each source: until 0.1 yr before its merger, decided before the code runs"""
    tb = 0.1 * YR
    out = []
    for t in tm:
        merges = apart(x, t - tb, tobs, 1e-6 * (t + tobs))
        late = apart(x, t, tb, 1e-6 * t)
        out.append((0.0 * t if late else t - tb) if merges else tobs)
    return out


def reference(x, k1, k2, dist, a, be, e, te, n, harms):
    mc = mchirp(k1, k2)
    c0 = a * c0_over_a(e)
    E = [x.flow(rhs(be, c0), e, te * j / (n - 1)) for j in range(n)]
    F = [kepler_f(c0 / c0_over_a(ee), k1, k2) for ee in E]
    if not (isinstance(te, float) and te == 0) and bool(te > 0):
        for j in range(n - 1):
            x.assume(F[j] < F[j + 1])
    out = []
    for h in range(1, harms + 1):
        Y = [h0n2(x, mc, dist, F[j], E[j], h, x.g(h, E[j])) / fdot_n(mc, F[j], E[j], h) / sn(x, h * F[j]) for j in range(n)]
        s = None
        for j in range(n - 1):
            w = h * (F[j + 1] - F[j]) * (Y[j + 1] + Y[j]) / 2
            s = w if s is None else s + w
        out.append((s, h * (F[-1] + F[0]) * (Y[-1] + Y[0])))
    return out


def setup(x, nx, n, harms, found=False):
    x.abstract_g()
    kw, k1, k2, a, be, e, d = inputs(x, nx)
    if found:
        stub_t_merge(x, x.np.array([a[i] for i in range(nx)]) * u.m, x.np.array([be[i] for i in range(nx)]) * u.m**4 / u.s, e, nx)
        tm = [si(t, u.s) for t in x.tm]
    else:
        q = x.real("q", 0.1, 1, None, (nx,))
        tm = [q[i] * tlow6(a[i], be[i], e[i]) for i in range(nx)]
        kw["t_merge"] = (x.np.array(tm) * u.s).to(u.Gyr)
    t = x.real("w", 0.001, 1) * tlow6(a[0], be[0], e[0])
    for i in range(1, nx):
        x.assume(t < tlow6(a[i], be[i], e[i]))
    kw.update(t_obs=(t * u.s).to(u.yr), n_step=n, harmonics_required=harms)
    te = span(x, tm, t)
    ref = [reference(x, k1[i], k2[i], d[i], a[i], be[i], e[i], te[i], n, harms) for i in range(nx)]
    return kw, ref


@scenario(bounds="1-2 sources, 2-3 steps, 2-3 harmonics, merger times given; SNR^2 of each harmonic; " + R, weight=4)
def by_harmonic(x):
    nx, n, harms = x.choice("sources, steps, harmonics", [(1, 3, 2), (2, 2, 2), (1, 2, 3)])
    kw, ref = setup(x, nx, n, harms)
    out = x.lw.snr.snr_ecc_evolving(interpolated_sc=curve(x), ret_snr2_by_harmonic=True, **kw)
    x.shape("shape", out, (nx, harms))
    for i in range(nx):
        for h in range(harms):
            s, sc = ref[i][h]
            x.close("integral over the observed inspiral", out[i, h], s, rtol=1e-4, scale=1e-4 * sc)


@scenario(bounds="1 source, 2 steps, 2-3 harmonics, merger time given, supplied curve: total and loudest harmonic; " + R, weight=4)
def total_and_loudest(x):
    harms, output = x.choice("harmonics and output", [(2, "loudest"), (2, "total"), (3, "total")])
    kw, ref = setup(x, 1, 2, harms)
    S = x.lw.snr.snr_ecc_evolving
    want = ref[0][0][0]
    sc = ref[0][0][1]
    for s, c in ref[0][1:]:
        want, sc = want + s, sc + c
    if output == "total":
        out = S(interpolated_sc=curve(x), **kw)
        x.shape("shape", out, (1,))
        x.close("sum over harmonics", out[0]**2, want, rtol=1e-4, scale=1e-4 * sc)
        return
    out, h = S(interpolated_sc=curve(x), ret_max_snr_harmonic=True, **kw)
    x.shape("shape", out, (1,))
    x.shape("shape of the loudest harmonic", h, (1,))
    x.close("sum over harmonics", out[0]**2, want, rtol=1e-4, scale=1e-4 * sc)
    k = int(h[0])
    x.require("loudest harmonic in range", 1 <= k <= harms, str(k))
    each = S(interpolated_sc=curve(x), ret_snr2_by_harmonic=True, **kw)       # (its values: by_harmonic)
    for i in range(harms):
        if i != k - 1:
            x.true("loudest harmonic", each[0, i] <= each[0, k - 1])


@scenario(bounds="1-2 sources, 2 steps, 1-2 harmonics, merger times found by the code and/or the instrument settings used; " + R, weight=4)
def settings(x):
    case = x.choice("case", [("found", 0, 2), ("found", None, 1), ("given", 1, 1), ("given", 2, 1), ("given", 3, 1)])
    kw, ref = setup(x, case[2], 2, 2 if case[2] == 1 else 1, case[0] == "found")
    calls = psd_stub(x)
    S = x.lw.snr.snr_ecc_evolving
    if case[1] is None:
        out = S(interpolated_sc=curve(x), ret_snr2_by_harmonic=True, **kw)
        x.require("the supplied curve is used", not calls, "power_spectral_density evaluated")
    else:
        out = S(ret_snr2_by_harmonic=True, **kw, **SETTINGS[case[1]])
        settings_ok(x, calls, kw["t_obs"], **SETTINGS[case[1]])
    for i, r in enumerate(ref):
        for h, (s, sc) in enumerate(r):
            x.close("integral over the observed inspiral", out[i, h], s, rtol=1e-4, scale=1e-4 * sc)


@scenario(bounds="2-3 sources over 2 processes, 2 steps, 1 harmonic; " + R, weight=4)
def processes(x):
    serial(x)
    kw, ref = setup(x, 2, 2, 1)
    out = x.lw.snr.snr_ecc_evolving(interpolated_sc=curve(x), ret_snr2_by_harmonic=True, n_proc=2, **kw)
    for i, r in enumerate(ref):
        for h, (s, sc) in enumerate(r):
            x.close("integral over the observed inspiral", out[i, h], s, rtol=1e-4, scale=1e-4 * sc)
