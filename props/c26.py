"""C26: indexing a collection gives the same sources, independent of the original"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, rad, position
from .sources import files, members, source, Curves, in_use

R = "masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0-0.995; harmonic tables and the PSD (C14-C18) stubbed"

INDICES = [0, 2, -1, -3, np.int64(1), slice(None), slice(1, None), slice(None, None, -1), slice(0, 3, 2), slice(2, 2),
           [2, 0], [1], [1, 1, 0], [-1, 0], np.array([0, 2]), [True, False, True], np.array([False, True, True]),
           np.array([False, False, False])]


def full(x, place=False, computed=True, weights=True, cls="Source", n=3, **k):
    """sources with every per-source attribute set"""
    kw = members(x, n, eccentric=not place)
    if place:
        kw.update(position=position(x, (n,))[0], inclination=x.real("inc", 0, 3.1, u.rad, (n,)),
                  polarisation=x.real("pol", 0, 3.1, u.rad, (n,)))
    if weights:
        kw["weights"] = x.real("w", 0, 5, None, (n,))
    s = source(x, kw, cls, stat_tol=0.02, gw_lum_tol=0.1, n_proc=3, **k)
    if computed:
        s.snr = x.real("snr", 0, 1e4, None, (n,))
        s.max_snr_harmonic = np.resize([2, 5, 9, 4, 7], n)
        s.t_merge = x.real("tm", 0, 1e5, u.Myr, (n,))
        s.merged = np.resize([False, True, False, True, True], n)
    return s


UNITS = dict(m_1=u.kg, m_2=u.kg, dist=u.m, f_orb=u.Hz, t_merge=u.s, inclination=u.rad, polarisation=u.rad)


def same(x, c, s, ids):
    """the sources of c are those of s at these positions"""
    x.eq("number of sources", int(c.n_sources), len(ids))
    x.eq("length", len(c), len(ids))
    for name in ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "snr", "t_merge", "inclination", "polarisation"):
        a, b = getattr(c, name), getattr(s, name)
        if b is None:
            x.require(name + " still absent", a is None)
            continue
        x.require(name + " present", a is not None)
        x.shape("shape of " + name, a, (len(ids),))
        for i, j in enumerate(ids):
            if name in UNITS:
                x.close(name, si(a[i], UNITS[name]), si(b[j], UNITS[name]))
            else:
                x.close(name, a[i], b[j])
    for name in ("merged", "max_snr_harmonic"):
        a, b = getattr(c, name), getattr(s, name)
        if b is None:
            x.require(name + " still absent", a is None)
            continue
        x.eq(name, [int(v) for v in a], [int(b[j]) for j in ids])
    if s.position is None:
        x.require("position still absent", c.position is None)
    else:
        x.shape("shape of the position", c.position.lon, (len(ids),))
        for i, j in enumerate(ids):
            x.close("longitude", rad(c.position.lon[i]), rad(s.position.lon[j]))
            x.close("latitude", rad(c.position.lat[i]), rad(s.position.lat[j]))
            x.close("distance of the position", si(c.position.distance[i], u.m), si(s.position.distance[j], u.m))
            x.require("frame", c.position.frame.name == "barycentrictrueecliptic")


def settings_equal(x, c, s):
    x.require("class", type(c) is type(s))
    for name in ("stat_tol", "gw_lum_tol", "n_proc", "ecc_tol"):
        x.require(name, getattr(c, name) == getattr(s, name))
    x.eq("interpolate_sc", c.interpolate_sc, s.interpolate_sc)
    x.eq("interpolate_g", c.interpolate_g, s.interpolate_g)
    x.require("sensitivity settings", dict(c.sc_params) == dict(s.sc_params))


@scenario(bounds="3 sources, 18 kinds of index, optional attributes present or absent; " + R, weight=2)
def values(x):
    files(x)
    ind = x.choice("index", INDICES)
    cls, place, computed, weights = x.choice("attributes", [("Source", False, True, True), ("Source", True, True, False),
                                                            ("Stationary", False, False, False), ("Evolving", True, False, True)])
    s = full(x, place, computed, weights, cls)
    ids = [int(v) for v in np.atleast_1d(np.arange(3)[ind])]
    c = s[ind]
    same(x, c, s, ids)
    settings_equal(x, c, s)
    x.close("chirp mass", si(c.m_c, u.kg), si(s.m_c[ids], u.kg))
    x.close("separation", si(c.a, u.m), si(s.a[ids], u.m))
    e = x.real("e_at", 0, 0.9)
    x.close("harmonics required", c.harmonics_required(e), s.harmonics_required(e))


@scenario(bounds="7 sources, 6 kinds of index; " + R)
def many(x):
    files(x)
    ind = x.choice("index", [slice(None), slice(None, None, -2), [6, 0, 3, 3, 5, 1, 2, 4], -2, np.arange(7) % 3 == 0, slice(-6, 20)])
    s = full(x, n=7)
    ids = [int(v) for v in np.atleast_1d(np.arange(7)[ind])]
    c = s[ind]
    same(x, c, s, ids)
    settings_equal(x, c, s)
    x.close("chirp mass", si(c.m_c, u.kg), si(s.m_c[ids], u.kg))


@scenario(bounds="3 sources, copies and chained indices; " + R)
def chained(x):
    files(x)
    s = full(x)
    how, ids = x.choice("how", [("copy", [0, 1, 2]), ("twice", [2]), ("copy of part", [2, 1]), ("reversed twice", [0, 1, 2]), ("mask of part", [1])])
    c = {"copy": lambda: s.copy(), "twice": lambda: s[1:][1], "copy of part": lambda: s[[2, 1]].copy(),
         "reversed twice": lambda: s[::-1][::-1], "mask of part": lambda: s[:2][np.array([False, True])]}[how]()
    same(x, c, s, ids)
    settings_equal(x, c, s)


@scenario(bounds="3 sources, one of original and copy is changed afterwards; " + R, weight=2)
def independent(x):
    files(x)
    curves = Curves(x)
    s = full(x, interpolate_sc=True, sc_params=dict(instrument="TianQin", t_obs=3 * u.yr))
    c = s[x.choice("index", [slice(None), [2, 0]])]
    before = dict(s.sc_params)
    a, b = x.choice("changed", [(c, s), (s, c)])
    how = x.choice("change", ["setting", "update", "reassign", "tolerance", "stat_tol", "values", "nothing"])
    now = dict(before)
    tol = s.ecc_tol
    snap = x.snapshot(b.ecc), x.snapshot(b.m_1), x.snapshot(b.merged), x.snapshot(b.snr)
    if how == "setting":
        a.sc_params["instrument"] = now["instrument"] = "DECIGO"
    elif how == "update":
        a.sc_params.update({"t_obs": 2 * u.yr, "L": 1e9 * u.m})
        now.update({"t_obs": 2 * u.yr, "L": 1e9 * u.m})
    elif how == "reassign":
        a.sc_params = {"approximate_R": True}
        now = dict(instrument="LISA", t_obs="auto", approximate_R=True)
    elif how == "tolerance":
        a.gw_lum_tol = 0.3
        x.require("tolerance changed", a.ecc_tol != tol and a.gw_lum_tol == 0.3)
    elif how == "stat_tol":
        a.stat_tol = 0.5
    elif how == "values":
        a.ecc[0] = 0.5
        a.m_1[0] = 1 * u.Msun
        a.merged[:] = True
        a.snr[0] = 1.0
    in_use(x, a, curves, now, "curve of the changed collection")
    in_use(x, b, curves, before, "curve of the other collection")
    x.require("settings of the other collection", dict(b.sc_params) == before)
    x.require("tolerances of the other collection", b.gw_lum_tol == 0.1 and b.ecc_tol == tol and b.stat_tol == 0.02)
    for v, k in zip((b.ecc, b.m_1, b.merged, b.snr), snap):
        x.unchanged("values of the other collection", v, k)
    if how == "nothing":
        x.require("no curve computed again", s.sc is c.sc or curves.calls == 1)


@scenario(bounds="3 sources, invalid indices; " + R)
def rejected(x):
    files(x)
    s = full(x, computed=False)
    bad, exc = x.choice("index", [([True, False], ValueError), (np.array([True] * 4), ValueError), ("m_1", ValueError), ([0.5, 1.0], ValueError),
                                  (1.5, ValueError), (3, IndexError), (-4, IndexError), ([0, 3], IndexError), (None, ValueError),
                                  (np.array([True]), ValueError)])
    x.raises("invalid index %r" % (bad,), exc, lambda: s[bad])
