"""C25: the strains of a collection are those of its sources"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, rad, position
from .sources import files, members, source
from .c24 import bound, mc

R = ("masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0-0.995; strain.h_0_n and strain.h_c_n (C06) are arbitrary "
     "functions of their arguments")


def one(x, name, kw, n, i, angles, full=True):
    a = [mc(x, kw["m_1"][i], kw["m_2"][i]), si(kw["f_orb"][i], u.Hz), kw["ecc"][i], si(kw["dist"][i], u.kpc), float(n)]
    if angles is not None:
        return x.unknown(name + "+", a + [rad(v[i]) for v in angles], 1e-30, 1e-10)
    return x.unknown(name, a, 1e-30, 1e-10)


def stubs(x, s):
    for name in ("h_0_n", "h_c_n"):
        real = getattr(x.lw.strain, name)

        def fn(*a, _name=name, _real=real, **k):
            p = bound(_real, a, k)
            x.require("interpolated g in use", p["interpolated_g"] is s[0].g)
            m, f, e, d = (np.atleast_1d(p[q]) for q in ("m_c", "f_orb", "ecc", "dist"))
            n = np.atleast_1d(p["n"])
            out = np.empty((len(m), 1, len(n)), dtype=object if x.symbolic else float)
            pos = p.get("position")
            for i in range(len(m)):
                for j in range(len(n)):
                    v = [si(m[i], u.Msun), si(f[i], u.Hz), e[i], si(d[i], u.kpc), float(n[j])]
                    if pos is None:
                        out[i, 0, j] = x.unknown(_name, v, 1e-30, 1e-10)
                    else:
                        v += [rad(q[i]) for q in (pos.lon, pos.lat, p["polarisation"], p["inclination"])]
                        out[i, 0, j] = x.unknown(_name + "+", v, 1e-30, 1e-10)
            return out
        x.replace(real, fn)


PATTERNS = [((False, False), None), ((True, False), None), ((False, True), (True, True)), ((False, False), (False, True)),
            ((True, False), (True, False)), ((True, True), None)]


@scenario(bounds="2 sources, every pattern of merged and selected ones, 1-3 harmonics; " + R, weight=2)
def strains(x):
    body(x, 2, *x.choice("merged and selected", PATTERNS))


@scenario(tier="thorough", bounds="3 sources, every pattern of merged and selected ones, 1-3 harmonics; " + R, weight=2)
def three(x):
    f = [False, True]
    body(x, 3, x.choice("merged", [(a, b, c) for a in f for b in f for c in f]),
         x.choice("selected", [None] + [(a, b, c) for a in f for b in f for c in f if a or b or c]))


def body(x, n, merged, sel):
    files(x)
    place = x.choice("position", [False, True])
    name = x.choice("strain", ["h_0_n", "h_c_n"])
    harm = x.choice("harmonics", [2, [1, 2, 3], np.array([4, 2])])
    kw = members(x, n, eccentric=not place)
    angles = None
    if place:
        pos, lon, lat = position(x, (n,))
        kw.update(position=pos, inclination=x.real("inc", 0, 180, u.deg, (n,)), polarisation=x.real("pol", 0, 180, u.deg, (n,)))
        angles = (lon, lat, kw["polarisation"], kw["inclination"])
    box = []
    stubs(x, box)
    s = source(x, kw, interpolate_g=x.choice("interpolated", [False, True]))
    box.append(s)
    s.merged = np.array(merged)
    got = getattr(s, "get_" + name)(harm, which_sources=None if sel is None else np.array(sel))
    idx = [i for i in range(n) if sel is None or sel[i]]
    hs = np.atleast_1d(harm)
    x.shape("one row per selected source, one column per harmonic", got, (len(idx), len(hs)))
    for r, i in enumerate(idx):
        for c, h in enumerate(hs):
            if merged[i]:
                x.true("strain of a merged source is exactly zero", got[r, c] == 0)
            else:
                x.close("strain of the source itself", got[r, c], one(x, name, kw, h, i, angles))


@scenario(bounds="1 source, strains computed before and after it merges or moves; " + R)
def history(x):
    files(x)
    kw = members(x, 1)
    box = []
    stubs(x, box)
    s = source(x, kw)
    box.append(s)
    name = x.choice("strain", ["h_0_n", "h_c_n"])
    first = getattr(s, "get_" + name)([2, 3])
    keep = x.snapshot(first)
    what = x.choice("then", ["merges", "moves"])
    if what == "merges":
        s.merged = np.array([True])
    else:
        s.f_orb = kw["f_orb"] = x.real("f2", 1e-5, 1e-2, u.Hz, (1,))
        s.ecc = kw["ecc"] = x.real("e2", 0, 0.995, None, (1,))
    got = getattr(s, "get_" + name)([2, 3])
    for c, h in enumerate((2, 3)):
        if what == "merges":
            x.true("strain of a merged source is exactly zero", got[0, c] == 0)
        else:
            x.close("strain of the source as it is now", got[0, c], one(x, name, kw, h, 0, None))
    x.unchanged("strains computed earlier", first, keep)


@scenario(bounds="6 sources, two patterns of merged and selected ones, 1-3 harmonics; " + R, weight=2)
def many(x):
    body(x, 6, *x.choice("merged and selected", [((False, True, False, False, True, False), (True, True, False, True, False, True)),
                                                 ((True, False, False, False, False, False), None)]))
