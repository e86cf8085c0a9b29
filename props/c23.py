"""C23: a collection of sources is consistent from construction on"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import kepler_f, kepler_a, mchirp, position, other_position, si, rad
from .sources import files, members, source

R = "masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0-0.995, distances 0.1-100 kpc; harmonic tables stubbed"


def follow(x, s, n, m1, m2, f):
    """derived quantities belong to these masses and frequencies"""
    x.shape("shape of the chirp mass", s.m_c, (n,))
    x.shape("shape of the separation", s.a, (n,))
    for i in range(n):
        x.close("chirp mass", si(s.m_c[i], u.kg), mchirp(si(m1[i], u.kg), si(m2[i], u.kg)))
        x.close("separation", si(s.a[i], u.m), kepler_a(si(f[i], u.Hz), si(m1[i], u.kg), si(m2[i], u.kg)))


def at(v, i):
    return v[i] if np.ndim(v) else v


@scenario(bounds="1, 2 and 7 sources, scalar or array inputs, separation and/or frequency given; " + R, weight=3)
def kept(x):
    n = x.choice("n", [None, 1, 2, 7])
    given = x.choice("given", ["f_orb", "a", "both"])
    cls = "Source" if n != 2 else x.choice("class", ["Source", "Stationary", "Evolving"])
    files(x)
    kw = members(x, n)
    m1, m2, f = kw["m_1"], kw["m_2"], kw["f_orb"]
    shp = None if n is None else (n,)
    w = x.real("w", 0, 5, None, shp) if given != "f_orb" else None
    if given != "f_orb":
        a = x.real("a", 0.01, 10, u.AU, shp)
        kw["a"] = a
        if given == "a":
            del kw["f_orb"]
    s = source(x, kw, cls, weights=w, stat_tol=0.03, n_proc=2)
    N = n or 1
    x.eq("number of sources", int(s.n_sources), N)
    x.eq("length", len(s), N)
    x.require("class", type(s) is getattr(x.lw.source, cls))
    for name, v, unit in (("m_1", m1, u.kg), ("m_2", m2, u.kg), ("dist", kw["dist"], u.m)):
        got = getattr(s, name)
        x.shape("shape of " + name, got, (N,))
        for i in range(N):
            x.close(name, si(got[i], unit), si(at(v, i), unit))
    x.shape("shape of ecc", s.ecc, (N,))
    x.shape("shape of f_orb", s.f_orb, (N,))
    M = [(si(at(m1, i), u.kg), si(at(m2, i), u.kg)) for i in range(N)]
    for i in range(N):
        x.close("ecc", s.ecc[i], at(kw["ecc"], i))
        want = kepler_f(si(at(a, i), u.m), *M[i]) if given == "a" else si(at(f, i), u.Hz)
        x.close("f_orb", si(s.f_orb[i], u.Hz), want)
    if w is None:
        x.require("weights", s.weights is None)
    else:
        x.shape("shape of weights", s.weights, (N,))
        for i in range(N):
            x.close("weights", s.weights[i], at(w, i))
    x.require("nothing computed yet", s.t_merge is None and s.snr is None and s.max_snr_harmonic is None)
    x.shape("shape of merged", s.merged, (N,))
    x.require("nothing merged", not np.any(s.merged))
    x.require("no position", s.position is None and s.inclination is None and s.polarisation is None)
    x.eq("stat_tol", float(s.stat_tol), 0.03)
    x.eq("gw_lum_tol", float(s.gw_lum_tol), 0.05)
    x.eq("n_proc", int(s.n_proc), 2)
    x.eq("interpolate_sc", bool(s.interpolate_sc), False)
    x.eq("interpolate_g", bool(s.interpolate_g), False)
    follow(x, s, N, s.m_1, s.m_2, s.f_orb)


@scenario(bounds="1-2 sources, histories of up to two assignments to separation, frequency or masses; " + R, weight=2)
def derived(x):
    n = x.choice("n", [1, 2])
    files(x)
    kw = members(x, n)
    s = source(x, kw)
    step = x.choice("history", [("a",), ("f_orb",), ("m_1",), ("a", "m_2"), ("m_1", "a"), ("f_orb", "a"), ("a", "f_orb"), ("a", "a")])
    unit = x.choice("unit", [u.AU, u.Rsun])
    m1, m2, f = kw["m_1"], kw["m_2"], kw["f_orb"]
    for k, name in enumerate(step):
        if name == "a":
            v = x.real("a%d" % k, 0.01, 10, u.AU, (n,))
            s.a = v.to(unit)
            f = [kepler_f(si(v[i], u.m), si(m1[i], u.kg), si(m2[i], u.kg)) * u.Hz for i in range(n)]
            for i in range(n):
                x.close("assigned separation", si(s.a[i], u.m), si(v[i], u.m))
        elif name == "f_orb":
            f = x.real("f%d" % k, 1e-5, 1e-2, u.Hz, (n,))
            s.f_orb = f
        elif name == "m_1":
            m1 = x.real("m1_%d" % k, 0.1, 50, u.Msun, (n,))
            s.m_1 = m1
        else:
            m2 = x.real("m2_%d" % k, 0.1, 50, u.Msun, (n,))
            s.m_2 = m2
        for i in range(n):
            x.close("f_orb", si(s.f_orb[i], u.Hz), si(f[i], u.Hz))
        follow(x, s, n, m1, m2, f)


@scenario(bounds="1-2 sources; " + R)
def rejected(x):
    files(x)
    n = x.choice("n", [None, 1, 2])
    case = x.choice("case", ["neither", "m_1", "m_2", "dist", "f_orb", "a", "inclination", "polarisation", "eccentric", "set a"])
    kw = members(x, n, eccentric=case != "eccentric")
    shp = None if n is None else (n,)
    S = lambda **k: source(x, kw, **k)      # noqa: E731
    if case == "neither":
        del kw["f_orb"]
        x.raises("neither separation nor frequency", ValueError, S)
    elif case in ("m_1", "m_2", "dist", "f_orb"):
        kw[case] = x.real("bare", 0.1, 1, None, shp)
        x.raises("no units on " + case, AssertionError, S)
    elif case == "a":
        del kw["f_orb"]
        kw["a"] = x.real("bare", 0.1, 1, None, shp)
        x.raises("no units on a", Exception, S)
    elif case == "set a":
        s = S()
        bare = x.real("bare", 0.1, 1, None, (n or 1,))

        def put():
            s.a = bare
        x.raises("no units on an assigned separation", AssertionError, put)
        x.close("frequency untouched", si(s.f_orb[0], u.Hz), si(at(kw["f_orb"], 0), u.Hz))
    elif case in ("inclination", "polarisation"):
        x.raises(case + " without a position", ValueError, S, **{case: x.real("ang", 0, 1, u.rad, shp)})
    else:
        pos, _, _ = position(x, shp)
        ecc = x.real("ecc", 1e-9, 0.995, None, shp)
        if n == 2:
            ecc = x.obj([0.0, ecc[0]]) if x.symbolic else np.array([0.0, ecc[0]])
        ang = x.real("ang", 0, 1, u.rad, shp)
        x.raises("position of an eccentric source", ValueError, S, ecc=ecc, position=pos, inclination=ang, polarisation=ang)


@scenario(bounds="2-3 sources with one array of another length; " + R)
def lengths(x):
    files(x)
    n, m = x.choice("lengths", [(2, 1), (2, 3), (1, 2), (3, 2)])
    which = x.choice("which", ["m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation"])
    angles = which in ("inclination", "polarisation")
    kw = members(x, n, eccentric=not angles)
    short = {"m_1": (0.1, 50, u.Msun), "m_2": (0.1, 50, u.Msun), "dist": (0.1, 100, u.kpc), "f_orb": (1e-5, 1e-2, u.Hz),
             "ecc": (0, 0.995, None), "weights": (0, 1, None), "inclination": (0, 1, u.rad), "polarisation": (0, 1, u.rad)}[which]
    if angles:
        kw["position"] = position(x, (n,))[0]
        for k in ("inclination", "polarisation"):
            kw[k] = x.real(k, 0, 1, u.rad, (n,))
    kw[which] = x.real("other_" + which, *short, shape=(m,))
    x.raises("%s of another length" % which, ValueError, source, x, kw)


class Draws:
    """numpy.random with symbolic uniform draws"""

    def __init__(self, x, real):
        self.__dict__.update(x=x, real=real, log=[])

    def uniform(self, low=0.0, high=1.0, size=None):
        k = len(self.log)
        v = self.x.real("draw%d_%g_%g" % (k, low, high), float(low), float(high), None, None if size is None else tuple(np.atleast_1d(size)))
        self.log.append((v, float(low), float(high)))
        return v

    def rand(self, *s):
        return self.uniform(0.0, 1.0, s or None)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def __getattr__(self, n):
        return getattr(self.real, n)


@scenario(bounds="1-3 circular sources with positions, angles given or drawn; " + R, weight=2)
def angles(x):
    n = x.choice("n", [None, 1, 3])
    inc, pol = x.choice("given", [(True, True), (False, True), (True, False), (False, False)])
    files(x)
    draws = Draws(x, np.random)
    x.stub_np("random", draws)
    shp = None if n is None else (n,)
    N = n or 1
    kw = members(x, n, eccentric=False)
    pos, lon, lat = position(x, shp)
    kw["position"] = pos
    if inc:
        kw["inclination"] = x.real("inc", 0, 180, u.deg, shp)
    if pol:
        kw["polarisation"] = x.real("pol", 0, 180, u.deg, shp)
    s = source(x, kw)
    x.shape("shape of the position", s.position.lon, (N,))
    for i in range(N):
        x.close("ecliptic longitude", rad(s.position.lon[i]), rad(at(lon, i)))
        x.close("ecliptic latitude", rad(s.position.lat[i]), rad(at(lat, i)))
        x.close("distance of the position", si(s.position.distance[i], u.m), si(at(kw["dist"], i), u.m))
    for name in ("inclination", "polarisation"):
        v = getattr(s, name)
        x.shape("shape of the " + name, v, (N,))
        for i in range(N):
            if name in kw:
                x.close(name, rad(v[i]), rad(at(kw[name], i)))
            else:
                hi = np.pi      # (an inclination's cosine is a draw from [0, 1]: below)
                x.true(name + " drawn from its range", (rad(v[i]) >= -1e-9) & (rad(v[i]) <= hi + 1e-9))
    # which draw became which angle
    used = [d for d in draws.log]
    flat = [(d[0][i] if np.ndim(d[0]) else d[0], d[1], d[2]) for d in used for i in range(np.size(d[0]))]
    x.eq("one draw per drawn angle", len(flat), N * ((not inc) + (not pol)))
    k = 0
    if not inc:
        for i in range(N):
            d, lo, hi = flat[k]
            k += 1
            x.require("cosine of the inclination uniform on [0, 1]", (lo, hi) == (0.0, 1.0))
            x.close("cosine of the drawn inclination", x.np.cos(rad(s.inclination[i])), d)
    if not pol:
        for i in range(N):
            d, lo, hi = flat[k]
            k += 1
            x.close("drawn polarisation", rad(s.polarisation[i]), d * (1.0 if hi > 2 else np.pi))
            x.require("polarisation uniform on [0, pi]", lo == 0.0 and (abs(hi - np.pi) < 1e-9 or hi == 1.0))


@scenario(bounds="1-2 circular sources with positions in the ICRS or galactic frame; " + R)
def frames(x):
    n = x.choice("n", [None, 1, 2])
    frame = x.choice("frame", ["icrs", "galactic"])
    files(x)
    shp = None if n is None else (n,)
    kw = members(x, n, eccentric=False)
    pos, _, _, lon, lat = other_position(x, shp, frame)
    for k in ("inclination", "polarisation"):
        kw[k] = x.real(k, 0, 180, u.deg, shp)
    s = source(x, kw, position=pos)
    x.shape("shape of the position", s.position.lon, (n or 1,))
    for i in range(n or 1):
        x.close("ecliptic longitude", rad(s.position.lon[i]), rad(at(lon, i)))
        x.close("ecliptic latitude", rad(s.position.lat[i]), rad(at(lat, i)))


@scenario(bounds="one source, symbolic harmonic and eccentricity; the 10000 x 1000 table is stubbed")
def interpolated(x):
    log = files(x)
    s = source(x, members(x, 1), interpolate_g=True)
    x.eq("interpolate_g", bool(s.interpolate_g), True)
    x.eq("one interpolation", len(log), 1)
    n, e, _ = log[0]
    x.require("harmonics of the table", len(n) == 10000 and n[0] == 1 and n[-1] == 10000)
    x.require("eccentricities of the table", len(e) == 1000 and e[0] == 0 and abs(e[-1] - 1) < 1e-12)
    k = x.choice("harmonic", [1, 2, 7])
    ev = x.real("at", 0, 0.99)
    x.close("interpolated g(n, e)", s.g(k, ev), x.g(k, ev))
    s.set_g(False)
    x.require("no interpolation", s.g is None and s.interpolate_g is False)
