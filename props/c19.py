"""C19 snr_circ_stationary."""
from engine.core import scenario, u
from props.common import *

R = "mc in [1e-3,1e9] Msun, D in [1e-3,1e7] kpc, f in [1e-9,10] Hz, t_obs in [0.01,100] yr, any positive S_n"
ASSUMPTIONS = ["the sensitivity is an uninterpreted positive function of frequency (its values are C14-C18)",
               "amplitude modulation is a free non-negative function of the angles (C05)"]


def inputs(x, nx):
    return (x.real("mc", 1e-3, 1e9, u.Msun, (nx,)), x.real("f", 1e-9, 10, u.Hz, (nx,)), x.real("d", 1e-3, 1e7, u.kpc, (nx,)),
            x.real("t_obs", 0.01, 100, u.yr))


def compare(x, snr, mc, f, d, t, nx, g=None, mod=None, tag=""):
    x.shape("shape" + tag, snr, (nx,))
    k, dd, ff, tt = si(mc, u.kg), si(d, u.m), si(f, u.Hz), si(t, u.s)
    for i in range(nx):
        h2 = h0n2(x, k[i], dd[i], ff[i], 0.0, 2, 1.0 if g is None else g[i])
        if mod is not None:
            h2 = h2 * mod[i]
        x.close("SNR^2 = h^2 t / S_n(2 f)" + tag, snr[i]**2, h2 * tt / sn(x, 2 * ff[i]), scale=h2 * tt / sn(x, 2 * ff[i]) if mod is not None else None)
        x.true("not negative" + tag, snr[i] >= 0)


@scenario(bounds="1-3 and 9 sources, supplied curve or instrument settings, several units; " + R, weight=2)
def plain(x):
    S = x.lw.snr
    nx = x.choice("sources", [1, 2, 3, 9])
    mc, f, d, t = inputs(x, nx)
    mu, du, fu, tu = x.choice("units", [(u.Msun, u.kpc, u.Hz, u.yr), (u.kg, u.Mpc, 1 / u.yr, u.s), (u.g, u.m, u.mHz, u.hr)])
    kw = dict(m_c=mc.to(mu), f_orb=f.to(fu), dist=d.to(du), t_obs=t.to(tu))
    s = x.choice("sensitivity", ["supplied"] + SETTINGS)
    calls = psd_stub(x)
    if s == "supplied":
        snr = S.snr_circ_stationary(interpolated_sc=curve(x), **kw)
        x.require("the supplied curve is used", not calls, "power_spectral_density evaluated")
    else:
        snr = S.snr_circ_stationary(**kw, **s)
        settings_ok(x, calls, t, **s)
    compare(x, snr, mc, f, d, t, nx)


@scenario(bounds="2 sources with position, polarisation and inclination, supplied curve or instrument; " + R, weight=2)
def positions(x):
    S = x.lw.snr
    x.abstract_amp()
    nx = x.choice("sources", [1, 2])
    mc, f, d, t = inputs(x, nx)
    pos, lon, lat = position(x, (nx,))
    psi, inc = x.real("psi", 0, math.pi, u.rad, (nx,)), x.real("inc", 0, math.pi, u.rad, (nx,))
    calls = psd_stub(x)
    kw = dict(interpolated_sc=curve(x)) if x.choice("sensitivity", ["supplied", "default"]) == "supplied" else {}
    snr = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=t, position=pos, polarisation=psi, inclination=inc, **kw)
    compare(x, snr, mc, f, d, t, nx, mod=[x.amp(rad(lat[i]), rad(lon[i]), rad(psi[i]), rad(inc[i])) for i in range(nx)])


@scenario(bounds="2 sources, interpolated harmonic power; distances scaled by a free factor in [0.01,100]; " + R, weight=2)
def interpolated_power_and_distance(x):
    S = x.lw.snr
    nx = 2
    mc, f, d, t = inputs(x, nx)
    g0 = x.real("g0", 0.1, 10)

    def g(n, e):
        shp = np.broadcast(np.asarray(n), np.asarray(e)).shape
        x.require("interpolant asked for n = 2 at e = 0", all(float(v) == 2 for v in np.asarray(n, dtype=object).flat)
                  and all(float(v) == 0 for v in np.asarray(e, dtype=object).flat), "")
        out = np.empty(shp, dtype=object if x.symbolic else float)
        for i in np.ndindex(*shp):
            out[i] = g0
        return out
    snr = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=t, interpolated_g=g, interpolated_sc=curve(x))
    compare(x, snr, mc, f, d, t, nx, g=[g0, g0])
    q = x.real("q", 0.01, 100)
    far = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=q * d, t_obs=t, interpolated_g=g, interpolated_sc=curve(x))
    for i in range(nx):
        x.close("proportional to 1 / distance", far[i] * q, snr[i])


@scenario(bounds="infinite noise outside the band of an instrument (DECIGO below 1 mHz, custom curve); " + R)
def out_of_band(x):
    S = x.lw.snr
    mc, f, d, t = inputs(x, 2)
    inf = float("inf")
    c = curve(x)

    def band(q):
        v = c(q)
        out = x.np.array([v[i].value if j == i else inf for i, j in enumerate(hit)]) if x.symbolic else \
            np.array([v[i].value if j == i else inf for i, j in enumerate(hit)])
        return out / u.Hz
    hit = [0, -1]
    snr = S.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=t, interpolated_sc=band)
    k, dd, ff = si(mc, u.kg), si(d, u.m), si(f, u.Hz)
    x.close("in band", snr[0]**2, h0n2(x, k[0], dd[0], ff[0], 0.0, 2, 1.0) * si(t, u.s) / sn(x, 2 * ff[0]))
    x.close("out of band", snr[1], 0.0)
