"""C07 interpolated harmonic power replaces g(n,e), clipped at zero."""
from engine.core import scenario, u
from props.common import *
from props.c06 import inputs, check, R

ASSUMPTIONS = ["the interpolant is elementwise in (n, e) and returns a new array, as RectBivariateSpline.ev does",
               "interpolants are per-harmonic linear functions of e with free coefficients: any values of any sign at two eccentricities"]


def interpolant(x, ns):
    """g(n, e) = a_n + b_n e with free a_n, b_n"""
    A = {n: x.real("a%d" % n, -1e3, 1e3) for n in ns}
    B = {n: x.real("b%d" % n, -1e3, 1e3) for n in ns}

    def fn(n, e):
        import numpy as np
        n, e = np.asarray(n), np.asarray(e)
        shp = np.broadcast(n, e).shape
        n, e = np.broadcast_to(n, shp), np.broadcast_to(e, shp)
        out = np.empty(shp, dtype=object if x.symbolic else float)
        for i in np.ndindex(*shp):
            k = int(float(n[i]))
            v = A[k] + B[k] * e[i]
            # keep rounding away from the clipping threshold
            x.assume(abs(v) > 1e-6)
            out[i] = v
        return out
    return fn, A, B


@scenario(bounds="1-2 sources, 1-2 timesteps, 1-2 harmonics, interpolated values of any sign in [-2e3,2e3]; " + R, weight=3)
def clipped(x):
    S = x.lw.strain
    nx, ny = x.choice("sources, steps", [(1, None), (2, None), (1, 2)])
    ns = x.choice("harmonics", [[2], [3, 1]])
    which = x.choice("strain", ["h_0_n", "h_c_n", "both"]) if x.tier == "thorough" else "both"
    mc, d, f, e = inputs(x, nx, ny)
    fn, A, B = interpolant(x, ns)
    n = x.np.array(ns)
    h0 = S.h_0_n(m_c=mc, f_orb=f, ecc=e, n=n, dist=d, interpolated_g=fn)
    hc = S.h_c_n(m_c=mc, f_orb=f, ecc=e, n=n, dist=d, interpolated_g=fn)
    g = {}
    for i in range(nx):
        for j in range(ny or 1):
            ei = e[i] if ny is None else e[i, j]
            for z, k in enumerate(ns):
                v = A[k] + B[k] * ei
                g[i, j, z] = v if bool(v > 0) else 0.0 * ei
    check(x, h0, hc, mc, d, f, e, ns, nx, ny, g=g)


@scenario(bounds="interpolated power together with position, polarisation and inclination, 2 sources, 1 harmonic; " + R, weight=2)
def clipped_position(x):
    S = x.lw.strain
    x.abstract_amp()
    mc, d, f, e = inputs(x, 2, None)
    fn, A, B = interpolant(x, [2])
    pos, lon, lat = position(x, (2,))
    psi, inc = x.real("psi", 0, math.pi, u.rad, (2,)), x.real("inc", 0, math.pi, u.rad, (2,))
    k = dict(m_c=mc, f_orb=f, ecc=e, n=x.np.array([2]), dist=d, interpolated_g=fn, position=pos, polarisation=psi,
             inclination=inc)
    h0, hc = S.h_0_n(**k), S.h_c_n(**k)
    g = {}
    for i in range(2):
        v = A[2] + B[2] * e[i]
        g[i, 0, 0] = v if bool(v > 0) else 0.0 * e[i]
    check(x, h0, hc, mc, d, f, e, [2], 2, None, g=g, mod=[x.amp(rad(lat[i]), rad(lon[i]), rad(psi[i]), rad(inc[i])) for i in range(2)])
