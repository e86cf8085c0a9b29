"""C06 strain amplitudes; C07 uses the same scenario with an interpolant."""
from engine.core import scenario, u
from props.common import *

R = "mc in [1e-3,1e9] Msun, D in [1e-3,1e7] kpc, f in [1e-9,10] Hz, e in [0,0.999]"
ASSUMPTIONS = ["in 'with_position' g(n,e) and the amplitude modulation are free non-negative functions of their arguments "
               "(their values are C03 and C05)", "Bessel values are free reals; harmonics are the listed integers"]


def inputs(x, nx, ny, emin=0):
    mc = x.real("mc", 1e-3, 1e9, u.Msun, (nx,))
    d = x.real("d", 1e-3, 1e7, u.kpc, (nx,))
    shp = (nx,) if ny is None else (nx, ny)
    f = x.real("f", 1e-9, 10, u.Hz, shp)
    e = x.real("e", emin, 0.999, None, shp)
    return mc, d, f, e


def check(x, h0, hc, mc, d, f, e, ns, nx, ny, g=None, mod=None, tag=""):
    yy = 1 if ny is None else ny
    x.shape("h_0_n shape", h0, (nx, yy, len(ns)))
    x.shape("h_c_n shape", hc, (nx, yy, len(ns)))
    k, dd, ff = si(mc, u.kg), si(d, u.m), si(f, u.Hz)
    for i in range(nx):
        for j in range(yy):
            fi = ff[i] if ny is None else ff[i, j]
            ei = e[i] if ny is None else e[i, j]
            for z, n in enumerate(ns):
                gg = g_ne(x, n, ei) if g is None else g[i, j, z]
                h2 = h0n2(x, k[i], dd[i], fi, ei, n, gg)
                if mod is not None:
                    h2 = h2 * mod[i]
                # sqrt(g) of a cancelling Bessel combination: compare squares with the scale of the terms
                sc = h0n2(x, k[i], dd[i], fi, ei, n, 1e-3 * n**4)
                x.close("h_0_n" + tag, h0[i, j, z]**2, h2, scale=sc)
                x.close("h_c_n" + tag, hc[i, j, z]**2 * fdot_n(k[i], fi, ei, n), (n * fi)**2 * h2, scale=sc * (n * fi)**2)
                x.true("non-negative" + tag, x.np.logical_and(h0[i, j, z] >= 0, hc[i, j, z] >= 0))


@scenario(bounds="1-5 sources, 1-4 timesteps, harmonic arrays of length 1-3 (n <= 7; one source: n = 1..14), any g(n,e) >= 0; " + R, weight=3)
def batch(x):
    S = x.lw.strain
    x.abstract_g()
    nx, ny = x.choice("sources, steps", [(1, None), (2, None), (1, 2), (2, 2), (2, 1), (5, 4)])
    ns = x.choice("harmonics", [[2], [1, 2], [3, 1, 7]] if nx * (ny or 1) > 1 else [[2], [1, 2], [3, 1, 7], list(range(1, 15))])
    mc, d, f, e = inputs(x, nx, ny)
    mu, du, fu = x.choice("units", [(u.Msun, u.kpc, u.Hz), (u.kg, u.Mpc, 1 / u.yr)])
    n = x.np.array(ns)
    h0 = S.h_0_n(m_c=mc.to(mu), f_orb=f.to(fu), ecc=e, n=n, dist=d.to(du))
    hc = S.h_c_n(m_c=mc.to(mu), f_orb=f.to(fu), ecc=e, n=n, dist=d.to(du))
    g = {}
    for i in range(nx):
        for j in range(ny or 1):
            for z, k in enumerate(ns):
                g[i, j, z] = x.g(k, e[i] if ny is None else e[i, j])
    check(x, h0, hc, mc, d, f, e, ns, nx, ny, g=g)


@scenario(bounds="1 source, 2 timesteps, harmonics 1-3 with the real g(n,e); " + R, weight=3)
def batch_bessel(x):
    S = x.lw.strain
    mc, d, f, e = inputs(x, 1, 2)
    n = x.np.array([1, 2, 3])
    h0 = S.h_0_n(m_c=mc, f_orb=f, ecc=e, n=n, dist=d)
    hc = S.h_c_n(m_c=mc, f_orb=f, ecc=e, n=n, dist=d)
    check(x, h0, hc, mc, d, f, e, [1, 2, 3], 1, 2)


@scenario(bounds="scalar arguments and scalar harmonic n in {1,2,5}; " + R)
def scalars(x):
    S = x.lw.strain
    n = x.choice("n", [1, 2, 5])
    mc, d = x.real("mc", 1e-3, 1e9, u.Msun), x.real("d", 1e-3, 1e7, u.kpc)
    f, e = x.real("f", 1e-9, 10, u.Hz), x.real("e", 0, 0.999)
    h0 = S.h_0_n(mc, f, e, n, d)
    hc = S.h_c_n(mc, f, e, n, d)
    one = lambda q: x.np.array([q.value]) * q.unit
    check(x, h0, hc, one(mc), one(d), one(f), x.np.array([e]), [n], 1, None)


@scenario(bounds="list arguments; n as list; " + R)
def rejected(x):
    S = x.lw.strain
    mc, d, f, e = inputs(x, 2, None)
    bad = x.choice("bad", [0, -1])
    pos = x.choice("position", [0, 1])
    v = [2, 3]
    v[pos] = bad
    for fn in (S.h_0_n, S.h_c_n):
        x.raises("n < 1", ValueError, fn, mc, f, e, x.np.array(v), d)
        x.raises("n < 1 list", ValueError, fn, mc, f, e, v, d)
        x.raises("n < 1 scalar", ValueError, fn, mc, f, e, bad, d)


@scenario(bounds="2 sources, 1-2 timesteps, 2 harmonics, every position/polarisation/inclination; " + R, weight=4)
def with_position(x):
    S = x.lw.strain
    x.abstract_g()
    x.abstract_amp()
    nx = 2
    ny = x.choice("steps", [None, 2])
    ns = [2, 3]
    mc, d, f, e = inputs(x, nx, ny)
    pos, lon, lat = position(x, (nx,))
    psi, inc = x.real("psi", 0, math.pi, u.rad, (nx,)), x.real("inc", 0, math.pi, u.rad, (nx,))
    n = x.np.array(ns)
    k = dict(m_c=mc, f_orb=f, ecc=e, n=n, dist=d)
    h0, hc = S.h_0_n(**k), S.h_c_n(**k)
    p = dict(position=pos, polarisation=psi, inclination=inc)
    m0, m_c = S.h_0_n(**k, **p), S.h_c_n(**k, **p)
    x.shape("shape", m0, h0.shape)
    x.shape("shape", m_c, hc.shape)
    for i in range(nx):
        m = x.amp(rad(lat[i]), rad(lon[i]), rad(psi[i]), rad(inc[i]))
        for j in range(1 if ny is None else ny):
            for z in range(len(ns)):
                x.close("h_0_n modulated", m0[i, j, z]**2, m * h0[i, j, z]**2, scale=h0[i, j, z]**2)
                x.close("h_c_n modulated", m_c[i, j, z]**2, m * hc[i, j, z]**2, scale=hc[i, j, z]**2)
