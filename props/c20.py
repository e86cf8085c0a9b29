"""C20 snr_ecc_stationary."""
from engine.core import scenario, u
from props.common import *

R = "mc in [1e-3,1e9] Msun, D in [1e-3,1e7] kpc, f in [1e-9,10] Hz, e in [0,0.99], t_obs in [0.01,100] yr, any positive S_n"
ASSUMPTIONS = ["the sensitivity is an uninterpreted positive function of frequency (C14-C18)",
               "g(n,e) is a free non-negative function of harmonic and eccentricity (C03), with g(n,0) = 1 for n = 2, else 0"]


def inputs(x, nx, emin=0.0):
    return (x.real("mc", 1e-3, 1e9, u.Msun, (nx,)), x.real("f", 1e-9, 10, u.Hz, (nx,)), x.real("e", emin, 0.99, None, (nx,)),
            x.real("d", 1e-3, 1e7, u.kpc, (nx,)), x.real("t_obs", 0.01, 100, u.yr))


def terms(x, mc, f, e, d, t, nx, N, g=None):
    k, dd, ff, tt = si(mc, u.kg), si(d, u.m), si(f, u.Hz), si(t, u.s)
    return [[h0n2(x, k[i], dd[i], ff[i], e[i], n, x.g(n, e[i]) if g is None else g(n, e[i])) * tt / sn(x, n * ff[i])
             for n in range(1, N + 1)] for i in range(nx)]


def scales(x, mc, f, e, d, t, nx, N):
    k, dd, ff, tt = si(mc, u.kg), si(d, u.m), si(f, u.Hz), si(t, u.s)
    return [[h0n2(x, k[i], dd[i], ff[i], e[i], n, 1e-3 * n**4) * tt / sn(x, n * ff[i]) for n in range(1, N + 1)] for i in range(nx)]


def total(row):
    s = row[0]
    for v in row[1:]:
        s = s + v
    return s


@scenario(bounds="1-3 sources, 1-4 harmonics (7 sources; 13 harmonics), total SNR, supplied curve or instrument settings; " + R, weight=3)
def quadrature_sum(x):
    S = x.lw.snr
    x.abstract_g()
    nx, N = x.choice("sources, harmonics", [(1, 4), (2, 3), (3, 2), (3, 1), (2, 2), (7, 2), (1, 13)])
    mc, f, e, d, t = inputs(x, nx)
    mu, fu, tu = x.choice("units", [(u.Msun, u.Hz, u.yr), (u.kg, 1 / u.yr, u.s)])
    kw = dict(m_c=mc.to(mu), f_orb=f.to(fu), ecc=e, dist=d, t_obs=t.to(tu), harmonics_required=N)
    s = x.choice("sensitivity", ["supplied"] + SETTINGS)
    calls = psd_stub(x)
    if s == "supplied":
        snr = S.snr_ecc_stationary(interpolated_sc=curve(x), **kw)
        x.require("the supplied curve is used", not calls, "power_spectral_density evaluated")
    else:
        snr = S.snr_ecc_stationary(**kw, **s)
        settings_ok(x, calls, t, **s)
    T, C = terms(x, mc, f, e, d, t, nx, N), scales(x, mc, f, e, d, t, nx, N)
    x.shape("shape", snr, (nx,))
    for i in range(nx):
        x.close("sum over harmonics", snr[i]**2, total(T[i]), scale=total(C[i]))
        x.true("not negative", snr[i] >= 0)


@scenario(bounds="1-3 sources, 1-4 harmonics (6 sources; 12 harmonics), SNR^2 of each harmonic; " + R, weight=3)
def by_harmonic(x):
    S = x.lw.snr
    x.abstract_g()
    nx, N = x.choice("sources, harmonics", [(1, 4), (2, 3), (3, 2), (3, 1), (6, 2), (1, 12)])
    mc, f, e, d, t = inputs(x, nx)
    psd_stub(x)
    kw = dict(interpolated_sc=curve(x)) if x.choice("sensitivity", ["supplied", "default"]) == "supplied" else {}
    out = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=t, harmonics_required=N, ret_snr2_by_harmonic=True, **kw)
    T, C = terms(x, mc, f, e, d, t, nx, N), scales(x, mc, f, e, d, t, nx, N)
    x.shape("shape", out, (nx, N))
    for i in range(nx):
        for n in range(N):
            x.close("term of its harmonic", out[i, n], T[i][n], scale=C[i][n])


@scenario(bounds="1-2 sources, 2-4 harmonics, dominant harmonic; " + R, weight=4)
def dominant(x):
    S = x.lw.snr
    x.abstract_g()
    nx, N = x.choice("sources, harmonics", [(1, 4), (1, 3), (2, 2), (1, 1)] + ([(2, 3)] if x.tier == "thorough" else []))
    mc, f, e, d, t = inputs(x, nx)
    psd_stub(x)
    kw = dict(interpolated_sc=curve(x)) if x.choice("sensitivity", ["supplied", "default"]) == "supplied" else {}
    snr, top = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=t, harmonics_required=N, ret_max_snr_harmonic=True, **kw)
    T, C = terms(x, mc, f, e, d, t, nx, N), scales(x, mc, f, e, d, t, nx, N)
    x.shape("shape", snr, (nx,))
    x.shape("shape of harmonics", top, (nx,))
    for i in range(nx):
        x.close("sum over harmonics", snr[i]**2, total(T[i]), scale=total(C[i]))
        k = int(top[i])
        x.require("a requested harmonic", 1 <= k <= N, "%d" % k)
        if 1 <= k <= N:
            for n in range(N):
                x.true("the largest term", T[i][k - 1] >= T[i][n] - 1e-6 * (T[i][n] + C[i][n]))


@scenario(bounds="2 sources with the real g(n,e), 3 harmonics; " + R, weight=2)
def bessel(x):
    S = x.lw.snr
    mc, f, e, d, t = inputs(x, 2, 0.01)
    out = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=t, harmonics_required=3, ret_snr2_by_harmonic=True, interpolated_sc=curve(x))
    T, C = terms(x, mc, f, e, d, t, 2, 3, g=lambda n, v: g_ne(x, n, v)), scales(x, mc, f, e, d, t, 2, 3)
    for i in range(2):
        for n in range(3):
            x.close("term of its harmonic", out[i, n], T[i][n], scale=C[i][n])


@scenario(bounds="2 sources, free interpolated harmonic power, 2 harmonics; " + R, weight=2)
def interpolated_power(x):
    S = x.lw.snr
    mc, f, e, d, t = inputs(x, 2)
    A = {n: x.real("a%d" % n, 1e-3, 1e3) for n in (1, 2)}
    B = {n: x.real("b%d" % n, 1e-3, 1e3) for n in (1, 2)}

    def g(n, v):
        n, v = np.asarray(n), np.asarray(v)
        shp = np.broadcast(n, v).shape
        n, v = np.broadcast_to(n, shp), np.broadcast_to(v, shp)
        out = np.empty(shp, dtype=object if x.symbolic else float)
        for i in np.ndindex(*shp):
            out[i] = A[int(float(n[i]))] + B[int(float(n[i]))] * v[i]
        return out
    out = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=t, harmonics_required=2, ret_snr2_by_harmonic=True,
                               interpolated_g=g, interpolated_sc=curve(x))
    T = terms(x, mc, f, e, d, t, 2, 2, g=lambda n, v: A[n] + B[n] * v)
    for i in range(2):
        for n in range(2):
            x.close("term of its harmonic", out[i, n], T[i][n])


@scenario(bounds="2-3 sources at e = 0, 2-4 harmonics, against snr_circ_stationary; " + R)
def circular_limit(x):
    S = x.lw.snr
    x.abstract_g()
    nx, N = x.choice("sources, harmonics", [(2, 2), (3, 4)])
    mc, f, e, d, t = inputs(x, nx)
    psd_stub(x)
    z = x.np.zeros(nx)
    kw = dict(interpolated_sc=curve(x)) if x.choice("sensitivity", ["supplied", "default"]) == "supplied" else {}
    a = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=z, dist=d, t_obs=t, harmonics_required=N, **kw)
    b = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=t, **kw)
    for i in range(nx):
        x.close("circular limit", a[i]**2, b[i]**2)
    T = S.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=z, dist=d, t_obs=t, harmonics_required=N, ret_max_snr_harmonic=True, **kw)[1]
    x.require("dominant harmonic of a circular source is 2", list(T) == [2] * nx, repr(list(T)))
