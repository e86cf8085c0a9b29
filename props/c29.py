"""C29: evolving a collection moves every source to its own later state"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, position
from .sources import files, members, source, Curves, in_use
from .c24 import bound
from .c26 import settings_equal

R = ("masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0 or 1e-3-0.995; merger times (C11) and evolutions (C08, C09) are "
     "arbitrary functions of each source's parameters")


def params(kw, i, ecc=True):
    v = [si(kw["m_1"][i], u.Msun), si(kw["m_2"][i], u.Msun), si(kw["f_orb"][i], u.Hz)]
    return v + [kw["ecc"][i]] if ecc else v


def t_merge(x, kw, i, exact=True):
    return x.unknown("t_merge" if exact else "t_merge_fit", params(kw, i), 1e10, 1e17)


def evolved(x, kw, i, t, circ):
    """(eccentricity, frequency) of source i after t seconds"""
    if circ:
        return 0.0, x.unknown("f_circ", params(kw, i, False) + [t], 1e-5, 1.0)
    return x.unknown("e_ecc", params(kw, i) + [t], 1e-6, 0.9), x.unknown("f_ecc", params(kw, i) + [t], 1e-5, 1.0)


def column(x, n, steps, last, first):
    out = np.empty((n, steps), dtype=object if x.symbolic else float)
    for i in range(n):
        for k in range(steps):
            out[i, k] = last[i] if k == steps - 1 else first[i]
    return out


def stubs(x):
    """merger times and evolutions as arbitrary functions of what they are asked for, source by source"""
    E = x.lw.evol
    seen = []

    def wrap(real, fn):
        def stub(*a, **k):
            return fn(bound(real, a, k))
        x.replace(real, stub)

    def names(p):
        v = p["output_vars"]
        return [v] if isinstance(v, str) else list(v)

    def rows(p):
        n = len(p["f_orb_i"])
        q = dict(m_1=p["m_1"], m_2=p["m_2"], f_orb=p["f_orb_i"], ecc=p.get("ecc_i"))
        x.require("masses and frequencies of the same sources", len(p["m_1"]) == n and len(p["m_2"]) == n)
        return n, q

    def time(p, i):
        t = p["t_evol"]
        if np.ndim(t):
            x.require("an evolution time for each source", len(t) == len(p["f_orb_i"]))
            t = t[i]
        return si(t, u.s)

    def evol_circ(p):
        n, q = rows(p)
        x.require("evolution over the given time", p.get("timesteps") is None)
        out = {"f_orb": [], "ecc": []}
        for i in range(n):
            out["f_orb"].append(x.unknown("f_circ", params(q, i, False) + [time(p, i)], 1e-5, 1.0))
        r = []
        for v in names(p):
            c = column(x, n, p["n_step"], out["f_orb"], [si(f, u.Hz) for f in q["f_orb"]])
            r.append(c * u.Hz if v == "f_orb" else 2 * c * u.Hz if v == "f_GW" else None)
        return r if len(r) > 1 else r[0]

    def evol_ecc(p):
        n, q = rows(p)
        x.require("evolution over the given time", p.get("timesteps") is None)
        seen.append("ecc")
        tag = "" if not p["avoid_merger"] else "_avoiding"
        e, f = [], []
        for i in range(n):
            a = params(q, i) + [time(p, i)]
            e.append(x.unknown("e_ecc" + tag, a, 1e-6, 0.9))
            f.append(x.unknown("f_ecc" + tag, a, 1e-5, 1.0))
        r = []
        for v in names(p):
            if v == "ecc":
                r.append(column(x, n, p["n_step"], e, list(q["ecc"])))
            elif v in ("f_orb", "f_GW"):
                r.append(column(x, n, p["n_step"], f, [si(w, u.Hz) for w in q["f_orb"]]) * u.Hz * (1 if v == "f_orb" else 2))
            else:
                r.append(None)
        return r if len(r) > 1 else r[0]

    def get_t_merge_ecc(p):
        n, q = rows(p)
        out = np.empty(n, dtype=object if x.symbolic and n else float)
        for i in range(n):
            out[i] = t_merge(x, q, i, p["exact"])
        return out * u.s
    wrap(E.evol_circ, evol_circ)
    wrap(E.evol_ecc, evol_ecc)
    wrap(E.get_t_merge_ecc, get_t_merge_ecc)
    return seen


def mixed(x, n, pattern):
    kw = members(x, n, eccentric=False)
    e = x.obj(np.zeros(n)) if x.symbolic else np.zeros(n)
    for i in range(n):
        if pattern[i]:
            e[i] = x.real("e[%d]" % i, 1e-3, 0.995)
    kw["ecc"] = e
    return kw


def after(x, kw, i, t, tm, was_merged):
    """state of source i after t: (ecc, f, t_merge, merged)"""
    if bool(t >= tm):
        return 0.0, 100.0, 0.0, True
    e, f = evolved(x, kw, i, t, bool(kw["ecc"][i] == 0))
    return e, f, tm - t, False


def agree(x, s, want, tag=""):
    n = len(want)
    for name in ("ecc", "f_orb", "t_merge", "merged"):
        x.shape("shape of " + name, getattr(s, name), (n,))
    for i, (e, f, tm, m) in enumerate(want):
        x.eq("merged" + tag, bool(s.merged[i]), m)
        x.close("eccentricity" + tag, s.ecc[i], e)
        x.close("frequency" + tag, si(s.f_orb[i], u.Hz), f)
        x.close("remaining merger time" + tag, si(s.t_merge[i], u.s), tm, scale=1e10)


def times(x, n, each, k=0):
    if each:
        t = x.real("t%d" % k, 1e-3, 1e4, u.Myr, (n,))
        return t, [si(v, u.s) for v in t]
    t = x.real("t%d" % k, 1e-3, 1e4, u.Myr)
    return t, [si(t, u.s)] * n


def start(x, kw, s, known):
    """(merger times in seconds, whether already merged)"""
    n = len(kw["ecc"])
    if known == "no":
        return [t_merge(x, kw, i) for i in range(n)], [False] * n
    tm = x.real("tm", 1e-2, 1e5, u.Myr, (n,))
    if known == "merged":
        tm = tm.copy()
        tm[0] = 0 * u.Myr
        s.merged = np.array([True] + [False] * (n - 1))
        s.f_orb[0] = 100 * u.Hz
        if x.symbolic or True:
            s.ecc[0] = 0.0
    s.t_merge = tm
    return [si(v, u.s) for v in tm], list(s.merged)


@scenario(bounds="1-2 sources (3 in the thorough tier), circular and eccentric, common or individual times, merged ones among them; " + R, weight=3)
def evolution(x):
    files(x)
    stubs(x)
    pats = [(False, True), (True, True), (False, False), (True,)]
    if x.tier == "thorough":
        pats += [(False, True, False), (True, False, True), (True, True, False)]
    pattern = x.choice("eccentric", pats)
    n = len(pattern)
    kw = mixed(x, n, pattern)
    s = source(x, kw)
    known = x.choice("merger times", ["no", "known", "merged"])
    tm, was = start(x, kw, s, known)
    each = x.choice("times", [False, True])
    new = x.choice("new collection", [False, True])
    t, ts = times(x, n, each)
    kw = dict(kw, ecc=s.ecc, f_orb=s.f_orb)
    want = [after(x, kw, i, ts[i], tm[i], was[i]) for i in range(n)]
    keep = {k: x.snapshot(getattr(s, k)) for k in ("m_1", "m_2", "dist", "ecc", "f_orb", "merged")}
    kt = x.snapshot(t)
    r = s.evolve_sources(t, create_new_class=new)
    x.unchanged("the caller's times", t, kt)
    if new:
        agree(x, r, want)
        for k, v in keep.items():
            x.unchanged("%s of the original" % k, getattr(s, k), v)
        for i in range(n):
            x.close("merger time of the original", si(s.t_merge[i], u.s), tm[i], scale=1e10)
        for k in ("m_1", "m_2", "dist"):
            x.unchanged("%s of the new collection" % k, getattr(r, k), keep[k])
    else:
        x.require("nothing returned", r is None)
        agree(x, s, want)
        for k in ("m_1", "m_2", "dist"):
            x.unchanged(k, getattr(s, k), keep[k])


@scenario(bounds="1-2 sources evolved twice in a row, with or without new collections; " + R, weight=3)
def twice(x):
    files(x)
    stubs(x)
    pattern = x.choice("eccentric", [(False,), (True,), (True, False)])
    n = len(pattern)
    kw = mixed(x, n, pattern)
    s = source(x, kw)
    a, b = x.choice("times", [(False, False), (True, False), (False, True)]) if n > 1 else (False, False)
    new = x.choice("new collections", [(False, False), (True, False), (False, True), (True, True)])
    tm = [t_merge(x, kw, i) for i in range(n)]
    t1, s1 = times(x, n, a, 1)
    t2, s2 = times(x, n, b, 2)
    w1 = [after(x, kw, i, s1[i], tm[i], False) for i in range(n)]
    r = s.evolve_sources(t1, create_new_class=new[0])
    c = r if new[0] else s
    agree(x, c, w1, " (first step)")
    k2 = dict(kw, ecc=[v[0] for v in w1], f_orb=[v[1] * u.Hz for v in w1])
    w2 = [after(x, k2, i, s2[i], w1[i][2], w1[i][3]) for i in range(n)]
    r = c.evolve_sources(t2, create_new_class=new[1])
    agree(x, r if new[1] else c, w2, " (second step)")
    if new[1]:
        agree(x, c, w1, " (original of the second step)")


@scenario(bounds="3 circular sources with every attribute and setting; " + R)
def carried(x):
    """a new collection keeps everything else"""
    files(x)
    stubs(x)
    curves = Curves(x)
    n = 2
    place, weights, sc, g = x.choice("attributes", [(True, True, True, False), (False, True, False, True), (False, False, True, True), (True, False, False, False)])
    kw = mixed(x, n, (False, False) if place else (True, False))
    if place:
        kw.update(position=position(x, (n,))[0], inclination=x.real("inc", 0, 3.1, u.rad, (n,)), polarisation=x.real("pol", 0, 3.1, u.rad, (n,)))
    if weights:
        kw["weights"] = x.real("w", 0, 5, None, (n,))
    given = dict(instrument="TianQin", t_obs=3 * u.yr)
    s = source(x, kw, interpolate_sc=sc, interpolate_g=g, gw_lum_tol=0.1, stat_tol=0.2, n_proc=3, sc_params=dict(given))
    s.t_merge = x.real("tm", 1e5, 2e5, u.Myr, (n,))
    t, _ = times(x, n, False)
    r = s.evolve_sources(t, create_new_class=True)
    settings_equal(x, r, s)
    for k in ("inclination", "polarisation", "weights"):
        if getattr(s, k) is None:
            x.require(k + " absent", getattr(r, k) is None)
        else:
            x.require(k + " kept", getattr(r, k) is not None)
            x.unchanged(k, getattr(r, k), getattr(s, k))
    x.eq("position kept", r.position is None, s.position is None)
    if place:
        for i in range(n):
            x.close("longitude", r.position.lon[i], s.position.lon[i])
            x.close("latitude", r.position.lat[i], s.position.lat[i])
    in_use(x, r, curves, given if sc else None)
    r.sc_params["instrument"] = "DECIGO"
    in_use(x, r, curves, dict(given, instrument="DECIGO") if sc else None, "curve of the new collection")
    in_use(x, s, curves, given if sc else None, "curve of the original")
    if g:
        e = x.real("e_at", 0, 0.9)
        x.close("interpolated g", r.g(2, e), x.g(2, e))


@scenario(bounds="2-3 sources, any of them merged or selected, exact or fitted merger times, stored or not; " + R, weight=2)
def merger_time(x):
    files(x)
    stubs(x)
    n = 2
    kw = mixed(x, n, x.choice("eccentric", [(False, True), (True, True)]))
    s = source(x, kw)
    merged, sel = x.choice("merged and selected", [((False, False), None), ((True, False), None), ((False, True), (True, True)),
                                                   ((False, False), (False, True)), ((True, False), (True, False)), ((True, True), None)])
    save = x.choice("stored", [True, False, None])
    exact = x.choice("exact", [True, False])
    s.merged = np.array(merged)
    k = {} if save is None else dict(save_in_class=save)
    if not exact:
        k["exact"] = False
    if sel is not None:
        k["which_sources"] = np.array(sel)
    got = s.get_merger_time(**k)
    save = save is not False
    idx = [i for i in range(n) if save or sel is None or sel[i]]
    x.shape("shape", got, (len(idx),))
    for r, i in enumerate(idx):
        x.close("merger time", si(got[r], u.s), 0.0 if merged[i] else t_merge(x, kw, i, exact), scale=1e10)
    if save:
        x.shape("shape of the stored times", s.t_merge, (n,))
        for i in range(n):
            x.close("stored merger time", si(s.t_merge[i], u.s), si(got[i], u.s), scale=1e10)
    else:
        x.require("not stored", s.t_merge is None)


@scenario(bounds="6 sources, circular and eccentric, in two patterns of which three merge; " + R)
def many(x):
    files(x)
    stubs(x)
    n = 6
    kw = mixed(x, n, (False, True, False, True, True, False))
    s = source(x, kw)
    merges = x.choice("merging", [(True, False, False, True, False, True), (False, True, True, False, True, False)])
    each = x.choice("times", [False, True])
    s.t_merge = x.np.array([si(x.real("tm%s%d" % ("m" if m else "s", i), *((1e-1, 9) if m else (11, 1e5)), u.Myr), u.Myr) for i, m in enumerate(merges)]) * u.Myr
    if each:
        t = x.np.array([si(x.real("t%s%d" % ("m" if m else "s", i), *((9.1, 1e5) if m else (1e-2, 10.9)), u.Myr), u.Myr) for i, m in enumerate(merges)]) * u.Myr
        ts = [si(v, u.s) for v in t]
    else:
        t = x.real("t", 9.1, 10.9, u.Myr)
        ts = [si(t, u.s)] * n
    tm = [si(v, u.s) for v in s.t_merge]
    kw = dict(kw, ecc=s.ecc.copy(), f_orb=s.f_orb.copy())
    want = [after(x, kw, i, ts[i], tm[i], False) for i in range(n)]
    if x.choice("new collection", [False, True]):
        s = s.evolve_sources(t, create_new_class=True)
    else:
        s.evolve_sources(t)
    agree(x, s, want)
