"""C05 antenna response and amplitude modulation."""
from engine.core import scenario, u
from props.common import *

ASSUMPTIONS = ["astropy's SkyCoord ecliptic transform is outside the claim: any ecliptic latitude/longitude may come out of it"]


def cl_D(x, th, ph):
    """Cornish & Larson 2003 Eq. 44 in terms of the angles themselves"""
    np = x.np
    ct, st = np.cos(th), np.sin(th)
    s2 = np.sin(2 * ph)
    Dp = 3 / 2048 * (487 + 158 * ct**2 + 7 * ct**4 - 162 * s2**2 * (1 + ct**2)**2)
    Dc = 3 / 512 * (120 * st**2 + ct**2 + 162 * s2**2 * ct**2)
    Dpc = 243 / 512 * ct * s2 * (2 * np.cos(ph)**2 - 1) * (1 + ct**2)
    return Dp, Dc, Dpc


def cl_F(x, th, ph, ps):
    np = x.np
    Dp, Dc, Dpc = cl_D(x, th, ph)
    Fp = (np.cos(2 * ps)**2 * Dp - np.sin(4 * ps) * Dpc + np.sin(2 * ps)**2 * Dc) / 4
    Fc = (np.cos(2 * ps)**2 * Dc + np.sin(4 * ps) * Dpc + np.sin(2 * ps)**2 * Dp) / 4
    return Fp, Fc


def angles(x, shp, names=("theta", "phi", "psi")):
    out = []
    for nm in names:
        out.append(x.real(nm, 0 if nm != "phi" else 0, math.pi if nm != "phi" else 2 * math.pi, None, shp))
    return out


@scenario(bounds="all angles; plain radians, rad, deg; scalar or 2-element arrays")
def response(x):
    L = x.lw.utils
    shp = x.choice("shape", [None, (2,)])
    th, ph, ps = angles(x, shp)
    unit = x.choice("unit", [None, u.rad, u.deg])
    if unit is None:
        a, b, c_ = th, ph, ps
    else:
        a, b, c_ = [(v * u.rad).to(unit) for v in (th, ph, ps)]
    Dp, Dc, Dpc = cl_D(x, th, ph)
    Fp, Fc = cl_F(x, th, ph, ps)
    x.close("D+^2", L.D_plus_squared(a, b), Dp, scale=1.0)
    x.close("Dx^2", L.D_cross_squared(a, b), Dc, scale=1.0)
    x.close("D+Dx", L.D_plus_D_cross(a, b), Dpc, scale=1.0)
    x.close("F+^2", L.F_plus_squared(a, b, c_), Fp, scale=1.0)
    x.close("Fx^2", L.F_cross_squared(a, b, c_), Fc, scale=1.0)


@scenario(bounds="all angles in radians")
def nonneg(x):
    L = x.lw.utils
    th, ph, ps = angles(x, None)
    p2 = x.real("psi2", 0, math.pi)
    x.true("D+^2 >= 0", L.D_plus_squared(th, ph) >= -1e-12)
    x.true("Dx^2 >= 0", L.D_cross_squared(th, ph) >= -1e-12)
    Fp, Fc = L.F_plus_squared(th, ph, ps), L.F_cross_squared(th, ph, ps)
    x.close("sum independent of polarisation", Fp + Fc, L.F_plus_squared(th, ph, p2) + L.F_cross_squared(th, ph, p2))
    if not x.symbolic:
        x.true("F >= 0", (Fp >= -1e-9) and (Fc >= -1e-9))


@scenario(bounds="all angles in radians; non-negativity of the 2x2 response form (determinant criterion)")
def positive_form(x):
    """F+ and Fx are the quadratic forms (cos 2psi, -+sin 2psi) of [[D+, D+x], [D+x, Dx]] (scenario response);
    the form is positive because its determinant is"""
    L = x.lw.utils
    th, ph, _ = angles(x, None)
    Dp, Dc, Dpc = L.D_plus_squared(th, ph), L.D_cross_squared(th, ph), L.D_plus_D_cross(th, ph)
    x.true("determinant", Dp * Dc - Dpc**2 >= -1e-9)
    p, q, r = x.real("p", 0, 1e3), x.real("q", 0, 1e3), x.real("r", -1e3, 1e3)
    a = x.real("a", 0, 2 * math.pi)
    x.assume(p * q >= r**2)
    cc, ss = x.np.cos(a), x.np.sin(a)
    x.true("form", cc**2 * p - 2 * ss * cc * r + ss**2 * q >= -1e-9)


@scenario(bounds="all ecliptic latitudes/longitudes, polarisations, inclinations; scalar or 2 sources; rad or deg")
def modulation(x):
    S = x.lw.strain
    shp = x.choice("shape", [None, (2,)])
    unit = x.choice("unit", [u.rad, u.deg])
    pos, lon, lat = position(x, shp, unit=unit)
    psi = x.real("psi", 0, math.pi, u.rad, shp)
    inc = x.real("inc", 0, math.pi, u.rad, shp)
    got = S.amplitude_modulation(pos, psi.to(unit), inc.to(unit))
    want = amp_mod(x, rad(lon), rad(lat), rad(psi), rad(inc))
    x.close("5/4 (a+^2 F+^2 + ax^2 Fx^2)", got, want, scale=1.0)
    # a+^2, ax^2 >= 0 and F+, Fx >= 0 (positive_form), so the modulation is non-negative
    if not x.symbolic:
        x.true("non-negative", np.all(got >= -1e-9))
