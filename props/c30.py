"""C30: harmonic counts and the circular/eccentric transition for any luminosity tolerance"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import F, apart
from .sources import files, members, source, table, Npz

R = "tolerance 5e-4-0.95; the packaged table (missing here) replaced by tables of 3-4 eccentricities and 3-6 harmonics"
ASSUMPTIONS = ["the transition is searched on 13 grid points over the same interval instead of 10^4 (np.linspace)",
               "interpolated counts are read a millionth of a grid step below each tabulated eccentricity, so that rounding "
               "at the grid point itself plays no role"]
POINTS = 13


def make(x, tol, tab):
    """a collection of one source with this tolerance"""
    files(x, tab)
    real = np.linspace
    if x.symbolic:
        x.stub_np("linspace", lambda a, b, num=50, *r, **k: real(a, b, min(num, POINTS) if num > 1000 else num, *r, **k))
    return source(x, dict(m_1=10 * u.Msun, m_2=10 * u.Msun, dist=8 * u.kpc, f_orb=1e-4 * u.Hz, ecc=0.1), gw_lum_tol=tol)


def grid(tab):
    e0, e1, n = tab["e_lims"]
    return 1 - np.logspace(np.log10(1 - e0), np.log10(1 - e1), int(n))


def wanted(x, g, e, tol, n_max):
    """smallest counts, each at least the one below it, that reach the fraction (or everything there is)"""
    out = [2]
    for i in range(1, len(e)):
        need = (1 - tol) * F(e[i])
        n, have = out[-1], 0
        for j in range(n):
            have = have + g[i][j]
        while n < n_max and apart(x, have, need, 1e-9):
            have = have + g[i][n]
            n += 1
        out.append(n)
    return out


def at(e, i):
    return e[i] - 1e-6 * (e[i] - e[i - 1]) if i else e[0] - 1e-9


def number(v):
    v = np.asarray(v) if isinstance(v, (int, float, np.generic)) else v
    return int(np.asarray(v).reshape(-1)[0])


def counts(x, s, e, need, label="count at a tabulated eccentricity"):
    got = [number(s.harmonics_required(at(e, i))) for i in range(len(e))]
    x.eq(label, got, need)
    x.eq("count above the table", number(s.harmonics_required(0.5 * (1 + e[-1]))), max(need))
    x.eq("count at no eccentricity", number(s.harmonics_required(0.0)), 2)


def powers(x, rows, n_max, e):
    g = [[0.0, 1.0] + [0.0] * (n_max - 2)]
    G = x.real("g", 0, 1, None, ((rows - 1) * n_max,))
    for i in range(1, rows):
        g.append([G[(i - 1) * n_max + j] * (1.2 * F(e[i])) for j in range(n_max)])
    return g


def stack(x, g):
    """2d array of rows"""
    if x.symbolic:
        return np.array(g, dtype=object)
    return np.array([[float(v) for v in r] for r in g])


@scenario(bounds="any table of relative powers with 3 eccentricities and 3 harmonics or 2 and 4 (thorough: 3x4, 2x6, 4x3), any tolerance; " + R, weight=3)
def smallest_counts(x):
    rows, n_max = x.choice("rows, harmonics", [(3, 3), (2, 4)] if x.tier == "quick" else [(3, 4), (2, 6), (4, 3)])
    e = 1 - np.logspace(0, np.log10(0.3), rows)
    g = powers(x, rows, n_max, e)
    tol = x.real("tol", 5e-4, 0.95)
    tab = Npz(e_lims=np.array([0.0, 0.7, float(rows)]), n_max=np.float64(n_max), g_vals=stack(x, g))
    need = wanted(x, g, e, tol, n_max)
    s = make(x, tol, tab)
    counts(x, s, e, need)


@scenario(bounds="4 eccentricities and up to 6 harmonics with powers spread over more harmonics at higher eccentricities; "
          "any pair of eccentricities; " + R)
def never_decreases(x):
    tab = table(4, 6, 0.8, x.choice("spread", [(2, 3, 4, 6), (2, 6, 3, 5), (2, 2, 2, 6)]))
    e, tol = grid(tab), x.real("tol", 5e-4, 0.95)
    need = wanted(x, tab["g_vals"], e, tol, 6)
    s = make(x, tol, tab)
    counts(x, s, e, need)
    pairs = [(0.1, 0.2), (0.2, 0.4), (0.4, 0.45), (0.3, 0.7), (0.75, 0.79), (0.79, 0.81), (0.81, 0.999), (0.0, 0.01)]
    for lo, hi in pairs:
        x.require("the count does not decrease with eccentricity", number(s.harmonics_required(lo)) <= number(s.harmonics_required(hi)))
    for q in sorted({v for p in pairs for v in p}):
        n = number(s.harmonics_required(q))
        k = int(np.searchsorted(e, q))
        x.require("the count lies between those of its neighbours", need[max(k - 1, 0)] <= n <= need[min(k, 3)], "%d at e = %g" % (n, q))
    top = 1 + tab["g_vals"].argmax(axis=1)
    for q, n in zip(e, top):
        x.eq("strongest harmonic at a tabulated eccentricity", int(np.asarray(s.max_strain_harmonic(float(q)))), int(n))
    many = s.harmonics_required(np.array([0.1, 0.5, 0.95]))
    x.eq("an array of eccentricities", [int(v) for v in many], [number(s.harmonics_required(q)) for q in (0.1, 0.5, 0.95)])
    x.require("counts are integers", np.asarray(many).dtype.kind in "iu")


def fraction(e):
    from scipy.special import jv
    if e == 0:
        return 1.0
    n, z = 2, 2 * e
    b = [jv(k, z) for k in (n - 2, n - 1, n, n + 1, n + 2)]
    q = 1 - e * e
    g = n**4 / 32 * ((b[0] - 2 * e * b[1] + 2 / n * b[2] + 2 * e * b[3] - b[4])**2 + q * (b[0] - 2 * b[2] + b[4])**2 + 4 / (3 * n**2) * b[2]**2)
    return g / F(e)


def transition(x, s, tol, label="transition"):
    """the smallest grid point at which the second harmonic alone misses the fraction"""
    e = float(np.asarray(s.ecc_tol))
    big = bool(tol >= 0.37)
    h = (1.0 if big else 0.2) / (POINTS - 1 if x.symbolic else 9999)
    x.require(label + " is an eccentricity", 0 < e < 1, "%g" % e)
    x.true(label + " misses the fraction", fraction(e) < (1 - tol) + 1e-7)
    before = e - h
    if before > 1e-9:
        x.true("just below the %s the second harmonic is enough" % label, fraction(before) >= (1 - tol) - 1e-7)
    return e


@scenario(bounds=R)
def circular_transition(x):
    tol = x.real("tol", 5e-4, 0.95)
    s = make(x, tol, table(3, 4, 0.7, (2, 3, 4)))
    transition(x, s, tol)


@scenario(bounds="two tolerances one after the other on the same collection; " + R)
def changing_the_tolerance(x):
    tab = table(3, 6, 0.7, (2, 4, 6))
    a, b = x.real("tol", 5e-4, 0.95), x.real("tol2", 5e-4, 0.95)
    e = grid(tab)
    s = make(x, a, tab)
    counts(x, s, e, wanted(x, tab["g_vals"], e, a, 6))
    other = make(x, 0.05, tab) if x.choice("another collection", [False, True]) else None
    s.gw_lum_tol = b
    x.close("tolerance kept", s.gw_lum_tol, b)
    counts(x, s, e, wanted(x, tab["g_vals"], e, b, 6), "count at a tabulated eccentricity after a change")
    first = transition(x, s, b, "transition after a change")
    s.gw_lum_tol = b
    x.eq("setting the same tolerance again changes nothing", float(np.asarray(s.ecc_tol)), first)
    if other is not None:
        counts(x, other, e, wanted(x, tab["g_vals"], e, 0.05, 6), "counts of another collection")
        transition(x, other, 0.05, "transition of another collection")


@scenario(bounds="2 sources of any eccentricity up to 0.19; " + R)
def masks_follow(x):
    """circular and eccentric masks use the transition"""
    tol = x.real("tol", 5e-4, 0.95)
    files(x, table(3, 4, 0.7, (2, 3, 4)))
    real = np.linspace
    if x.symbolic:
        x.stub_np("linspace", lambda a, b, num=50, *r, **k: real(a, b, min(num, POINTS) if num > 1000 else num, *r, **k))
    kw = members(x, 2, e_hi=0.19)
    s = source(x, kw, gw_lum_tol=tol)
    t = float(np.asarray(s.ecc_tol))
    e = kw["ecc"]
    is_c = [bool(e[i] <= t) for i in range(2)]
    x.eq("circular sources", [bool(v) for v in s.get_source_mask(circular=True)], is_c)
    x.eq("eccentric sources", [bool(v) for v in s.get_source_mask(circular=False)], [not c for c in is_c])
