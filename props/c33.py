"""C33: computations never modify the caller's arrays; the same call with the same objects gives the same answer"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, psd_stub, sn, position, FakePos, kepler_a, beta
from .sources import files, members, source, Curves
from .c09 import serial
from .c24 import bound, stub_stationarity, stub_snr, trio

R = "each public function on 1-2 sources or frequencies, in the units it works in and in others; values as in the property of that function"
ASSUMPTIONS = ["what the caller's own callables (custom noise, interpolants) do with the arrays they are handed"]


def equal(x, label, p, q):
    if isinstance(p, (list, tuple)):
        x.require(label + " (number of results)", isinstance(q, (list, tuple)) and len(p) == len(q))
        for i, (a, b) in enumerate(zip(p, q)):
            equal(x, "%s [%d]" % (label, i), a, b)
        return
    if p is None or isinstance(p, (bool, str, int)):
        x.require(label, p is q or p == q)
        return
    if isinstance(p, u.Quantity):
        x.require(label + " (unit)", isinstance(q, u.Quantity) and p.unit == q.unit)
        p, q = p.value, q.value
    p, q = np.asarray(p), np.asarray(q)
    x.shape(label + " (shape)", q, p.shape)
    if p.dtype == bool:
        x.require(label, p.tolist() == q.tolist())
        return
    for i in np.ndindex(*p.shape):
        x.close(label, p[i], q[i])


def cells(v):
    return v.value if isinstance(v, u.Quantity) else v


def twice(x, name, fn, args=(), kw=None):
    """the caller's objects keep their values, and the same call gives the same answer; returns the answer"""
    kw = kw or {}
    held = {("arg %d" % i): v for i, v in enumerate(args) if not callable(v)}
    held.update({k: v for k, v in kw.items() if not callable(v)})
    held = {k: v for k, v in held.items() if not isinstance(v, FakePos) and not hasattr(v, "transform_to")}
    snap = x.snapshot(held)
    units = {k: v.unit for k, v in held.items() if isinstance(v, u.Quantity)}
    first = fn(*args, **kw)
    for k, v in held.items():
        x.unchanged("%s: %s after the call" % (name, k), v, snap[k])
        if k in units:
            x.require("%s: unit of %s" % (name, k), v.unit == units[k])
    kept = x.snapshot(list(first) if isinstance(first, tuple) else first)
    second = fn(*args, **kw)
    for k, v in held.items():
        x.unchanged("%s: %s after a second call" % (name, k), v, snap[k])
    if first is not None:
        equal(x, "%s: same answer from the same objects" % name, kept, list(second) if isinstance(second, tuple) else second)
        if isinstance(first, (u.Quantity, np.ndarray)):
            x.unchanged("%s: the first answer after the second call" % name, first, kept)
    return first


def masses(x, n, unit=u.Msun, hi=50):
    return x.real("m1", 1, hi, unit, (n,)), x.real("m2", 1, hi, unit, (n,))


@scenario(bounds="2 binaries, harmonics 1-3; " + R)
def conversions(x):
    U = x.lw.utils
    mu, au, fu = x.choice("units", [(u.Msun, u.AU, u.Hz), (u.kg, u.m, u.mHz)])
    m1, m2 = x.real("m1", 1, 50, u.Msun, (2,)).to(mu), x.real("m2", 1, 50, u.Msun, (2,)).to(mu)
    f, a = x.real("f", 1e-6, 1, u.Hz, (2,)).to(fu), x.real("a", 1e-4, 10, u.AU, (2,)).to(au)
    e = x.real("e", 0.01, 0.95, None, (2,))
    what = x.choice("function", ["chirp_mass", "get_a_from_f_orb", "get_f_orb_from_a", "beta", "c_0", "peters_f", "fn_dot", "get_a_from_ecc", "ensure_array"])
    F = getattr(U, what)
    if what in ("chirp_mass", "beta"):
        twice(x, what, F, (m1, m2))
    elif what == "get_a_from_f_orb":
        twice(x, what, F, (f, m1, m2))
    elif what == "get_f_orb_from_a":
        twice(x, what, F, (a, m1, m2))
    elif what == "c_0":
        twice(x, what, F, (a, e))
    elif what == "get_a_from_ecc":
        twice(x, what, F, (e, a))
    elif what == "peters_f":
        twice(x, what, F, (e,))
    elif what == "fn_dot":
        twice(x, what, F, (m1, f, e, np.array([2, 3])))
    else:
        lst = [1.0, 2.0]
        out, _ = twice(x, what, lambda *v: F(*v), (e, lst, m1, None)) or (None, None)
        x.eq("list", lst, [1.0, 2.0])


@scenario(bounds="angles of 1-2 sources in radians or degrees; " + R)
def response(x):
    n = x.choice("n", [1, 2])
    au = x.choice("unit", [u.rad, u.deg])
    th, ph, ps = (x.real(k, 0, hi, u.rad, (n,)).to(au) for k, hi in (("theta", np.pi), ("phi", 6), ("psi", 3)))
    U = x.lw.utils
    for name, args in (("D_plus_squared", (th, ph)), ("D_cross_squared", (th, ph)), ("D_plus_D_cross", (th, ph)),
                       ("F_plus_squared", (th, ph, ps)), ("F_cross_squared", (th, ph, ps))):
        twice(x, name, getattr(U, name), args)


@scenario(bounds="1-2 sources, 2 harmonics, with and without a position and with g(n, e) computed or supplied; " + R)
def strains(x):
    x.abstract_g()
    n = x.choice("n", [1, 2])
    name = x.choice("strain", ["h_0_n", "h_c_n"])
    ku, fu, du = x.choice("units", [(u.Msun, u.Hz, u.kpc), (u.kg, u.mHz, u.m)])
    k = dict(m_c=x.real("mc", 0.1, 50, u.Msun, (n,)).to(ku), f_orb=x.real("f", 1e-6, 1, u.Hz, (n,)).to(fu), dist=x.real("d", 0.1, 100, u.kpc, (n,)).to(du),
             ecc=x.real("e", 0, 0.9, None, (n,)), n=np.array([2, 3]))
    how = x.choice("how", ["plain", "position", "table"])
    if how == "position":
        k["position"] = position(x, (n,))[0]
        k["polarisation"], k["inclination"] = x.real("psi", 0, 3, u.rad, (n,)), x.real("inc", 0, 1.5, u.rad, (n,))
    elif how == "table":
        x.assume(k["ecc"] >= 0)
        k["interpolated_g"] = lambda N, E: x.obj(np.array([[x.unknown("g", [E[i, 0], int(N[j])], 0.0, 5.0) for j in range(2)] for i in range(n)], dtype=object)) \
            if np.shape(E) == (n, 1) else x.obj(np.array([[x.unknown("g", [np.reshape(E, -1)[i], int(np.reshape(N, -1)[j])], 0.0, 5.0) for j in range(2)] for i in range(n)], dtype=object))
    twice(x, name, getattr(x.lw.strain, name), (), k)


@scenario(bounds="2 frequencies anywhere from 1e-9 to 1e3 Hz, each instrument and confusion noise; " + R, weight=3)
def noise(x):
    P = x.lw.psd
    lo, hi = x.choice("range", [(1e-9, 1e-7), (1e-5, 2e-4), (2.5e-3, 1e-2), (3, 1e3)])
    f = x.real("f from %g" % lo, lo, hi, u.Hz, (2,))
    f = f.to(x.choice("unit", [u.Hz, u.mHz]))
    t = x.choice("t_obs", [4 * u.yr, 1e8 * u.s])
    what = x.choice("function", ["LISA", "LISA approximate", "TianQin", "DECIGO", "custom", "robson19", "huang20", "thiele21", "karnesis21"])
    L = np.array(3.0e9) * u.m
    if what.startswith("LISA"):
        twice(x, what, P.power_spectral_density, (f,), dict(t_obs=t, L=L, approximate_R="app" in what, confusion_noise=None))
    elif what in ("TianQin", "DECIGO"):
        twice(x, what, P.power_spectral_density, (f,), dict(instrument=what, t_obs=t, confusion_noise=None))
    elif what == "custom":
        twice(x, what, P.power_spectral_density, (f,), dict(instrument="custom", custom_psd=lambda f, **k: f * 2, t_obs=t))
    else:
        twice(x, what, P.get_confusion_noise, (f, what), dict(t_obs=t) if what != "thiele21" else {})


def evolving(x, n, a=True):
    m1, m2 = masses(x, n)
    k = dict(m_1=m1, m_2=m2)
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    if a:
        k["a_i"] = x.real("a", 1e-3, 1e-1, u.AU, (n,))
        return k, si(k["a_i"], u.m), beta(k1, k2)
    k["f_orb_i"] = x.real("f", 1e-5, 1e-3, u.Hz, (n,))
    return k, kepler_a(si(k["f_orb_i"], u.Hz), k1, k2), beta(k1, k2)


@scenario(bounds="1-2 binaries, times shared or each its own, in seconds or years; " + R)
def circular_evolution(x):
    E = x.lw.evol
    n = x.choice("n", [1, 2])
    k, a0, be = evolving(x, n, x.choice("given", [True, False]))
    tu = x.choice("time unit", [u.s, u.yr])
    how = x.choice("times", ["t_evol", "t_evol each", "shared steps", "steps each"])
    lim = 0.5 * a0**4 / (4 * be)
    tm = x.real("t", 0, 1e3, u.s, (n,) if how == "t_evol each" else ((3,) if how == "shared steps" else (n, 3) if how == "steps each" else None))
    tm = tm.to(tu)
    if how.startswith("t_evol"):
        k.update(t_evol=tm, n_step=3)
    else:
        k["timesteps"] = tm
    out = x.choice("outputs", ["a", "f_orb", ["timesteps", "a", "f_GW"]])
    for i in range(n):
        x.assume(lim[i] > 2e3)
    twice(x, "evol_circ", E.evol_circ, (), dict(k, output_vars=out))


@scenario(bounds="1-2 binaries, times shared or each its own, with or without merger avoidance; " + R, weight=4)
def eccentric_evolution(x):
    E = x.lw.evol
    serial(x)
    avoid, given, how, n, form = x.choice("times", [(False, False, "t_evol", 2, True), (True, True, "shared steps", 1, False), (True, True, "steps each", 1, True),
                                                    (True, False, "t_evol each", 1, True), (False, False, "steps each", 2, False), (True, True, "steps each", 2, False)])
    k, a0, be = evolving(x, n, form)
    e = x.real("e", 0.05, 0.6, None, (n,))
    tu, bu = x.choice("time unit", [(u.s, u.yr), (u.yr, u.s), (u.Gyr, u.Gyr)])
    for i in range(n):
        x.assume(0.18 * a0[i]**4 / (4 * be[i]) > 2e5)
    tm = x.real("t", 0, 1e5, u.s, (n,) if how == "t_evol each" else ((2,) if how == "shared steps" else (n, 2) if how == "steps each" else None)).to(tu)
    if how.startswith("t_evol"):
        k.update(t_evol=tm, n_step=2)
    else:
        k["timesteps"] = tm
    if given:
        k["t_merge"] = x.real("t_merge", 1e4, 1e9, u.s, (n,)).to(tu)
    elif avoid:
        x.patch(E, "get_t_merge_ecc", lambda **q: np.full(n, 1e9) * u.s)
    k.update(avoid_merger=avoid)
    if avoid:
        k["t_before"] = (np.array(1000.0) * u.s).to(bu)
    k["output_vars"] = ["timesteps", "ecc", "f_orb"] if n == 1 else "ecc"
    twice(x, "evol_ecc", E.evol_ecc, (), dict(k, ecc_i=e))


@scenario(bounds="2 binaries; " + R)
def merger_times(x):
    E = x.lw.evol
    k, a0, be = evolving(x, 2, x.choice("given", [True, False]))
    what = x.choice("function", ["circ", "ecc exact", "ecc fit", "fit", "final", "stationarity", "steps", "inputs"])
    e = x.real("e", 1e-3, 0.9, None, (2,))
    if what == "circ":
        twice(x, what, E.get_t_merge_circ, (), k)
    elif what.startswith("ecc"):
        twice(x, what, E.get_t_merge_ecc, (), dict(k, ecc_i=e, exact="exact" in what))
    elif what == "fit":
        twice(x, what, E.t_merge_mandel_fit, (e,))
    elif what == "final":
        f = x.real("f", 1e-5, 1e-3, u.Hz, (2,)).to(x.choice("unit", [u.Hz, u.mHz]))
        twice(x, what, E.evolve_f_orb_circ, (), dict(f_orb_i=f, m_c=x.real("mc", 1, 40, u.Msun, (2,)), t_evol=x.real("t_evol", 0, 1e3, u.yr, (2,)), ecc_i=e))
    elif what == "stationarity":
        f = x.real("f", 1e-5, 1e-3, u.Hz, (2,))
        twice(x, what, E.determine_stationarity, (), dict(f_orb_i=f, m_1=k["m_1"], m_2=k["m_2"], t_evol=4 * u.yr, ecc_i=e))
    elif what == "steps":
        ts = x.real("t", 0, 1e9, u.s, (3,)).to(x.choice("unit", [u.s, u.yr]))
        a = x.real("a", 1e-3, 1e-1, u.AU, (2,))
        b = x.real("beta", 1e14, 1e30, u.m**4 / u.s, (2,))
        twice(x, what, E.create_timesteps_array, (), dict(a_i=a, beta=b, ecc_i=e, timesteps=ts))
    else:
        twice(x, what, E.check_mass_freq_input, (), k)


@scenario(bounds="2 sources, supplied curve or instrument settings; " + R, weight=2)
def stationary_snrs(x):
    S = x.lw.snr
    x.abstract_g()
    psd_stub(x)
    mu, fu, tu = x.choice("units", [(u.Msun, u.Hz, u.yr), (u.kg, u.mHz, u.s)])
    k = dict(m_c=x.real("mc", 0.1, 50, u.Msun, (2,)).to(mu), f_orb=x.real("f", 1e-5, 1e-2, u.Hz, (2,)).to(fu), dist=x.real("d", 0.1, 100, u.kpc, (2,)),
             t_obs=x.real("t", 1, 10, u.yr).to(tu))
    if x.choice("which", ["circular", "eccentric"]) == "circular":
        if x.choice("position", [False, True]):
            k["position"] = position(x, (2,))[0]
            k["polarisation"], k["inclination"] = x.real("psi", 0, 3, u.rad, (2,)), x.real("inc", 0, 1.5, u.rad, (2,))
        twice(x, "snr_circ_stationary", S.snr_circ_stationary, (), k)
    else:
        k.update(ecc=x.real("e", 0.05, 0.8, None, (2,)), harmonics_required=2, ret_snr2_by_harmonic=x.choice("by harmonic", [False, True]))
        twice(x, "snr_ecc_stationary", S.snr_ecc_stationary, (), k)


@scenario(bounds="1 source with 2-3 steps, merger time given or not, in seconds or years; " + R, weight=2)
def evolving_snrs(x):
    S, E = x.lw.snr, x.lw.evol
    x.abstract_g()
    psd_stub(x)
    serial(x)
    tu = x.choice("time unit", [u.s, u.yr])
    k, a0, be = evolving(x, 1, False)
    k["dist"] = x.real("d", 0.1, 100, u.kpc, (1,))
    x.assume(0.18 * a0[0]**4 / (4 * be[0]) > 2e9)
    k["t_obs"] = x.real("t_obs", 1e7, 1e8, u.s).to(tu)
    k["t_merge"] = x.real("t_merge", 1e6, 1e9, u.s, (1,)).to(tu)
    k["n_step"] = 2
    if x.choice("which", ["circular", "eccentric"]) == "circular":
        twice(x, "snr_circ_evolving", S.snr_circ_evolving, (), k)
    else:
        k.update(ecc=x.real("e", 0.05, 0.6, None, (1,)), harmonics_required=2)
        twice(x, "snr_ecc_evolving", S.snr_ecc_evolving, (), k)


@scenario(bounds="2 sources given as arrays or lists, with weights and settings, then analysed, evolved and masked; " + R, weight=3)
def collections(x):
    files(x)
    Curves(x)
    stub_stationarity(x)
    stub_snr(x, [])
    which = x.choice("then", ["settings", "snr", "snr of some", "snr of others", "strain", "masks"])
    n = 1 if which.startswith("snr") else 2
    kw = trio(x, n)
    kw["weights"] = x.real("w", 0, 5, None, (n,))
    if x.choice("lists", [False, True]):
        kw["ecc"], kw["weights"] = list(kw["ecc"]), list(kw["weights"])
        kw["f_orb"] = np.array([1e-3, 2e-3][:n]) * u.Hz
    params = {"instrument": "TianQin", "t_obs": 3 * u.yr}
    kw["sc_params"] = params
    snap = x.snapshot({k: v for k, v in kw.items()})
    s = source(x, kw)
    mask = np.array([True, False][:n])
    harms = x.choice("harmonics", [[2, 3], np.array([2, 3]), 2]) if which == "strain" else 2
    hs, ms = x.snapshot(harms), mask.copy()
    t = 4 * u.yr
    if which == "settings":
        s.sc_params["instrument"] = "LISA"
        s.sc_params.update(t_obs=1 * u.yr)
        s.gw_lum_tol = 0.1
    elif which == "snr":
        a = s.get_snr(verbose=False)
        keep = x.snapshot(a)
        b = s.get_snr(t_obs=t, verbose=False)
        x.unchanged("the first answer", a, keep)
    elif which == "snr of some":
        s.get_snr_stationary(which_sources=mask)
        s.get_snr_evolving(which_sources=~mask)
    elif which == "snr of others":
        s.get_snr(t_obs=t, instrument="LISA", L=1e9 * u.m, verbose=False)
    elif which == "strain":
        for n in ("get_h_0_n", "get_h_c_n"):
            twice(x, n, getattr(s, n), (harms,), dict(which_sources=mask))
    else:
        twice(x, "get_source_mask", s.get_source_mask, (), dict(circular=True, stationary=False, t_obs=t))
        s[mask], s[[0, 1]], s.copy()
    x.unchanged("harmonics", harms, hs) if not isinstance(harms, int) else None
    x.eq("mask", mask.tolist(), ms.tolist())
    x.eq("mission length", (t.value, t.unit), (4.0, u.yr))
    for k, v in kw.items():
        x.unchanged("constructor argument %s" % k, v, snap[k])
    x.require("the caller's settings are still a plain dict", type(params) is dict)


@scenario(bounds="2 sources, 1 shared time or one each, in place or into a new collection; " + R, weight=2)
def evolving_collections(x):
    files(x)
    stub_evol(x)
    kw = members(x, 2)
    e = x.choice("eccentricities", ["free", "circular", "one of each"])
    if e == "circular":
        kw["ecc"] = np.zeros(2)
    elif e == "one of each":
        kw["ecc"] = x.obj(np.array([0.0, kw["ecc"][1]], dtype=object))
        x.assume(kw["ecc"][1] > 1e-3)
    else:
        x.assume(kw["ecc"] > 1e-3)
    tu = x.choice("unit", [u.s, u.yr, u.Gyr])
    t = x.real("t", 1e-3, 1e3, u.yr, None if x.choice("shared", [False, True]) else (2,)).to(tu)
    s = source(x, kw)
    snap = {k: x.snapshot(v) for k, v in kw.items()}
    st = x.snapshot(t)
    new = x.choice("new", [False, True])
    tm = s.get_merger_time()
    ktm = x.snapshot(tm)
    out = s.evolve_sources(t, create_new_class=new)
    x.unchanged("evolution time", t, st)
    x.unchanged("merger times returned earlier", tm, ktm)
    for k, v in kw.items():
        x.unchanged("constructor argument %s after evolving" % k, v, snap[k])
    s2 = source(x, kw)
    out2 = s2.evolve_sources(t, create_new_class=new)
    a, b = (out, out2) if new else (s, s2)
    for k in ("f_orb", "ecc", "merged"):
        equal(x, "%s of a second collection from the same objects" % k, getattr(a, k), getattr(b, k))
    x.unchanged("evolution time after a second use", t, st)


def stub_evol(x):
    """the evolution itself (C08, C09) and the merger times (C11) are arbitrary functions of their arguments"""
    E = x.lw.evol

    def times(**k):
        n = len(k["f_orb_i"])
        e = k.get("ecc_i", np.zeros(n))
        return x.obj(np.array([x.unknown("tm", [si(k["m_1"], u.kg)[i] / 1e30, si(k["m_2"], u.kg)[i] / 1e30, si(k["f_orb_i"], u.Hz)[i], e[i]], 1e-2, 1e2) for i in range(n)], dtype=object)) * u.yr

    def last(name, lo, hi):
        def fn(k, e):
            n = len(k["f_orb_i"])
            t = k["t_evol"]
            t = [si(t, u.yr)] * n if np.ndim(t) == 0 else si(t, u.yr)
            return np.array([[0.5 * (lo + hi), x.unknown(name, [si(k["f_orb_i"], u.Hz)[i], e[i], t[i]], lo, hi)] for i in range(n)], dtype=object)
        return fn
    f, ecc = last("f", 1e-6, 1.0), last("ecc", 1e-3, 0.9)

    def evol_circ(**k):
        return x.obj(f(k, np.zeros(len(k["f_orb_i"])))) * u.Hz

    def evol_ecc(ecc_i, **k):
        return [x.obj(ecc(k, ecc_i)), x.obj(f(k, ecc_i)) * u.Hz]
    for real, fn in ((E.get_t_merge_circ, times), (E.get_t_merge_ecc, times), (E.evol_circ, evol_circ), (E.evol_ecc, evol_ecc)):
        x.replace(real, lambda *a, _r=real, _f=fn, **k: _f(**bound(_r, a, k)))


@scenario(bounds="defaults of functions and constructor after other calls; " + R)
def defaults(x):
    """calls that rely on defaults are not affected by earlier calls"""
    files(x)
    Curves(x)
    kw = members(x, 1)
    a = source(x, kw)
    before = {k: v for k, v in a.sc_params.items()}
    how = x.choice("history", ["set", "update", "construct", "none"])
    if how == "set":
        a.sc_params["instrument"] = "TianQin"
    elif how == "update":
        a.sc_params.update(L=1e9 * u.m, confusion_noise=None)
    elif how == "construct":
        source(x, kw, sc_params={"instrument": "DECIGO"})
    b = source(x, kw)
    x.eq("settings of a new collection", {k: b.sc_params[k] for k in b.sc_params}, before)
