"""C34: results do not depend on the units the caller chooses"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, psd_stub, sn, position, kepler_a, beta, apart
from .sources import files, members, source, Curves
from .c09 import serial
from .c24 import stub_stationarity, stub_snr, trio
from .c33 import stub_evol

R = "each argument in 1-3 other units, one at a time and all together; 1-2 sources or frequencies; values as in the property of each function"
ASSUMPTIONS = ["unit conversion itself (astropy)", "comparisons decided by the last digits of a unit conversion are outside"]

OTHER = {"mass": [u.kg, u.Mjup], "length": [u.m, u.R_sun, u.AU], "distance": [u.m, u.lyr, u.Mpc], "frequency": [u.mHz, 1 / u.yr],
         "time": [u.s, u.day, u.Gyr], "angle": [u.deg, u.arcmin]}


def physical(v):
    """value in SI"""
    if isinstance(v, u.Quantity):
        return v.to_value(v.unit.decompose())
    return v


def same(x, label, p, q, scale=None):
    if isinstance(p, (list, tuple)):
        x.require(label + " (number of results)", isinstance(q, (list, tuple)) and len(p) == len(q))
        for i, (a, b) in enumerate(zip(p, q)):
            same(x, "%s [%d]" % (label, i), a, b)
        return
    if p is None or isinstance(p, (bool, str)):
        x.require(label, p is q or p == q)
        return
    if isinstance(p, u.Quantity):
        x.require(label + " (same kind of quantity)", isinstance(q, u.Quantity) and p.unit.is_equivalent(q.unit), "%s and %s" % (p.unit, getattr(q, "unit", None)))
        p, q = si(p, p.unit.decompose()), si(q, p.unit.decompose())
    p, q = np.asarray(p), np.asarray(q)
    x.shape(label + " (shape)", q, p.shape)
    if p.dtype == bool:
        x.eq(label, q.tolist(), p.tolist())
        return
    for i in np.ndindex(*p.shape):
        x.close(label, q[i], p[i])


def kinds(k, args):
    """(argument, unit) pairs to try, then everything at once"""
    pairs = [(a, un) for a, kind in args.items() if a in k for un in OTHER[kind]]
    return pairs + ["everything"]


def convert(k, args, pick):
    out = dict(k)
    for j, (a, kind) in enumerate(args.items()):
        if a not in k:
            continue
        if pick == "everything":
            out[a] = k[a].to(OTHER[kind][j % len(OTHER[kind])])
        elif pick[0] == a:
            out[a] = k[a].to(pick[1])
    return out


def both(x, name, fn, k, args, few=False):
    """the answer in the given units and with one or all arguments in other ones"""
    pairs = kinds(k, args)
    if few and x.tier == "quick":
        pairs = [p for i, p in enumerate(pairs) if p == "everything" or p[0] not in [q[0] for q in pairs[:i]]]
    pick = x.choice("other units", pairs)
    same(x, name, fn(**k), fn(**convert(k, args, pick)))


@scenario(bounds="1 binary; " + R)
def conversions(x):
    U = x.lw.utils
    m1, m2 = x.real("m1", 1, 50, u.Msun, (1,)), x.real("m2", 1, 50, u.Msun, (1,))
    f, a, e = x.real("f", 1e-6, 1, u.Hz, (1,)), x.real("a", 1e-4, 10, u.AU, (1,)), x.real("e", 0.01, 0.95, None, (1,))
    M = dict(m_1="mass", m_2="mass")
    name, k, args = x.choice("function", [("chirp_mass", {}, M), ("get_a_from_f_orb", dict(f_orb=f), dict(M, f_orb="frequency")), ("get_f_orb_from_a", dict(a=a), dict(M, a="length")),
                                          ("beta", {}, M), ("c_0", dict(a_i=a, ecc_i=e), dict(a_i="length")), ("get_a_from_ecc", dict(ecc=e, c_0=a), dict(c_0="length")),
                                          ("fn_dot", dict(m_c=m1, f_orb=f, e=e, n=2), dict(m_c="mass", f_orb="frequency"))])
    k = dict(k)
    if args.get("m_1"):
        k.update(m_1=m1, m_2=m2)
    both(x, name, getattr(U, name), k, args)


@scenario(bounds="1 source; " + R)
def response(x):
    th, ph, ps = (x.real(q, 0, hi, u.rad, (1,)) for q, hi in (("theta", np.pi), ("phi", 6), ("psi", 3)))
    U = x.lw.utils
    name = x.choice("function", ["D_plus_squared", "D_cross_squared", "D_plus_D_cross", "F_plus_squared", "F_cross_squared"])
    k = dict(theta=th, phi=ph)
    if name.startswith("F"):
        k["psi"] = ps
    both(x, name, getattr(U, name), k, dict(theta="angle", phi="angle", psi="angle"))


@scenario(bounds="1 source, harmonics 1-3, with or without position; " + R)
def strains(x):
    x.abstract_g()
    name = x.choice("strain", ["h_0_n", "h_c_n"])
    k = dict(m_c=x.real("mc", 0.1, 50, u.Msun, (1,)), f_orb=x.real("f", 1e-6, 1, u.Hz, (1,)), dist=x.real("d", 0.1, 100, u.kpc, (1,)), ecc=x.real("e", 0, 0.9, None, (1,)), n=np.array([1, 2, 3]))
    if x.choice("position", [False, True]):
        k["position"] = position(x, (1,))[0]
        k["polarisation"], k["inclination"] = x.real("psi", 0, 3, u.rad, (1,)), x.real("inc", 0, 1.5, u.rad, (1,))
    both(x, name, getattr(x.lw.strain, name), k, dict(m_c="mass", f_orb="frequency", dist="distance", polarisation="angle", inclination="angle"))


BANDS = [(1e-9, 0.9e-7), (1.1e-7, 9e-6), (1.1e-5, 1.9e-3), (2.1e-3, 0.99), (1.01, 1.99), (2.6, 9), (11, 99), (110, 1e3)]


@scenario(bounds="1 frequency from 1e-9 to 1e3 Hz (not at the ends of a range), each instrument; " + R, weight=2)
def noise(x):
    P = x.lw.psd
    lo, hi = x.choice("range", BANDS)
    f = x.real("f from %g" % lo, lo, hi, u.Hz, (1,))
    what = x.choice("function", ["LISA", "LISA approximate", "TianQin", "DECIGO"])
    t = x.real("t", 1.1, 9.0, u.yr) if "LISA" in what else 4.3 * u.yr
    k = dict(f=f, t_obs=t, confusion_noise=None)
    if what != "DECIGO":
        k["L"] = 2.2e9 * u.m
    k["instrument"] = what.split()[0]
    k["approximate_R"] = "app" in what
    both(x, what, P.power_spectral_density, k, dict(f="frequency", t_obs="time", L="length"))


CONF = [(1.1e-9, 0.9e-4), (1.1e-4, 4e-4), (5e-4, 3e-3), (3e-3, 0.9e-1), (0.11, 0.9), (1.01, 2.4), (2.6, 99)]


@scenario(bounds="1 frequency, every confusion model, directly and through a curve; " + R, weight=2)
def confusion(x):
    P = x.lw.psd
    lo, hi = x.choice("range", CONF)
    f = x.real("f from %g" % lo, lo, hi, u.Hz, (1,))
    model = x.choice("model", ["robson19", "huang20", "thiele21", "karnesis21"])
    k = dict(f=f, model=model)
    if model != "thiele21":
        k["t_obs"] = x.choice("t_obs", [1.0, 4.0] if model != "huang20" else [1.0, 5.0]) * u.yr
    both(x, model, P.get_confusion_noise, k, dict(f="frequency", t_obs="time"))


def binary(x, n, form="a"):
    m1, m2 = x.real("m1", 1, 50, u.Msun, (n,)), x.real("m2", 1, 50, u.Msun, (n,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    k = dict(m_1=m1, m_2=m2)
    if form == "a":
        k["a_i"] = x.real("a", 1e-3, 1e-1, u.AU, (n,))
        return k, si(k["a_i"], u.m), beta(k1, k2)
    k["f_orb_i"] = x.real("f", 1e-5, 1e-3, u.Hz, (n,))
    return k, kepler_a(si(k["f_orb_i"], u.Hz), k1, k2), beta(k1, k2)


E_ARGS = dict(m_1="mass", m_2="mass", a_i="length", f_orb_i="frequency", t_evol="time", timesteps="time", t_merge="time", t_before="time")


@scenario(bounds="1-2 binaries, times as span, shared or own steps; " + R)
def circular_evolution(x):
    n, form, how = x.choice("form", [(1, "a", "span"), (2, "f", "span"), (1, "f", "steps"), (2, "a", "own steps")])
    k, a0, be = binary(x, n, form)
    for i in range(n):
        x.assume(a0[i]**4 / (4 * be[i]) > 1e6)
    if how == "span":
        k.update(t_evol=x.real("t", 0, 1e5, u.s), n_step=2)
    else:
        k["timesteps"] = x.real("t", 0, 1e5, u.s, (n, 2) if how == "own steps" else (2,))
    out = x.choice("outputs", ["a", "f_orb", ["timesteps", "f_GW"]])
    both(x, "evol_circ", lambda **q: x.lw.evol.evol_circ(output_vars=out, **q), k, E_ARGS)


@scenario(bounds="1-2 binaries, with or without merger avoidance and given merger times; " + R, weight=3)
def eccentric_evolution(x):
    E = x.lw.evol
    serial(x)
    n, form, how, avoid = x.choice("form", [(1, "a", "span", False), (2, "f", "span", False), (1, "f", "steps", True), (1, "a", "own steps", False)])
    k, a0, be = binary(x, n, form)
    e = x.real("e", 0.05, 0.6, None, (n,))
    for i in range(n):
        x.assume(0.18 * a0[i]**4 / (4 * be[i]) > 2e5)
    if how == "span":
        k.update(t_evol=x.real("t", 0, 1e5, u.s), n_step=2)
    else:
        k["timesteps"] = x.real("t", 0, 1e5, u.s, (n, 2) if how == "own steps" else (2,))
    if avoid:
        k["t_merge"], k["t_before"] = x.real("t_merge", 1e4, 1e6, u.s, (n,)), x.real("t_before", 1, 1e3, u.s)
        for i in range(n):
            for t in k["timesteps"]:
                apart(x, si(t, u.s), si(k["t_merge"][i], u.s) - si(k["t_before"], u.s), 1.0)
    both(x, "evol_ecc", lambda **q: E.evol_ecc(ecc_i=e, avoid_merger=avoid, output_vars=["timesteps", "ecc", "f_orb"], **q), k, E_ARGS)


@scenario(bounds="1-2 binaries; " + R)
def merger_times(x):
    E = x.lw.evol
    k, a0, be = binary(x, 1, x.choice("form", ["a", "f"]))
    what = x.choice("function", ["circ", "ecc exact", "ecc fit", "inputs"])
    e = x.real("e", 1e-3, 0.9, None, (1,))
    if what == "circ":
        both(x, what, E.get_t_merge_circ, k, E_ARGS)
    elif what == "inputs":
        both(x, what, E.check_mass_freq_input, k, E_ARGS)
    else:
        both(x, what, lambda **q: E.get_t_merge_ecc(ecc_i=e, exact="exact" in what, **q), k, E_ARGS)


@scenario(bounds="1 binary; " + R)
def drift(x):
    E = x.lw.evol
    what = x.choice("function", ["final frequency", "stationarity"])
    k = dict(f_orb_i=x.real("f", 1e-5, 1e-2, u.Hz, (1,)), m_c=x.real("mc", 1, 40, u.Msun, (1,)), t_evol=x.real("t", 0, 10, u.yr))
    args = dict(f_orb_i="frequency", m_c="mass", t_evol="time", merge_f="frequency")
    if what == "stationarity" and x.choice("masses", ["chirp mass", "components"]) == "components":
        del k["m_c"]
        k.update(m_1=x.real("m1", 1, 40, u.Msun, (1,)), m_2=x.real("m2", 1, 40, u.Msun, (1,)))
        args.update(m_1="mass", m_2="mass")
    e = x.real("e", 0, 0.9, None, (1,))
    from .common import fdot_n, F
    m_c = k["m_c"] if "m_c" in k else x.lw.utils.chirp_mass(k["m_1"], k["m_2"])
    d = fdot_n(si(m_c, u.kg)[0], si(k["f_orb_i"], u.Hz)[0], 0.0, 1) * F(e[0]) * si(k["t_evol"], u.s) / si(k["f_orb_i"], u.Hz)[0]
    if what == "stationarity":
        # well before the merger, and not at the edge of being stationary
        x.assume(d < 0.3)
        tol = x.choice("tolerance", [1e-2, 0.2])
        apart(x, 1 / (1 - 8 / 3.0 * d)**(3 / 8.0) - 1, tol, 1e-4)
        both(x, what, lambda **q: E.determine_stationarity(ecc_i=e, stat_tol=tol, **q), k, args)
        return
    merges = apart(x, 3 / 8.0, d, 1e-4)
    k["merge_f"] = 1e9 * u.Hz
    both(x, what, lambda **q: E.evolve_f_orb_circ(ecc_i=e, **q), k, args)


S_ARGS = dict(m_c="mass", m_1="mass", m_2="mass", f_orb="frequency", f_orb_i="frequency", dist="distance", t_obs="time", t_merge="time", polarisation="angle", inclination="angle", L="length")


@scenario(bounds="1 source, 1-2 harmonics, supplied curve or instrument settings; " + R, weight=2)
def stationary_snrs(x):
    S = x.lw.snr
    x.abstract_g()
    calls = psd_stub(x)
    k = dict(m_c=x.real("mc", 0.1, 50, u.Msun, (1,)), f_orb=x.real("f", 1e-5, 1e-2, u.Hz, (1,)), dist=x.real("d", 0.1, 100, u.kpc, (1,)), t_obs=x.real("t", 1, 10, u.yr))
    if x.choice("which", ["circular", "eccentric"]) == "circular":
        if x.choice("position", [False, True]):
            k["position"] = position(x, (1,))[0]
            k["polarisation"], k["inclination"] = x.real("psi", 0, 3, u.rad, (1,)), x.real("inc", 0, 1.5, u.rad, (1,))
        both(x, "snr_circ_stationary", S.snr_circ_stationary, dict(k, L=2e9 * u.m), S_ARGS)
    else:
        k.update(ecc=x.real("e", 0.05, 0.8, None, (1,)), harmonics_required=2, L=2e9 * u.m)
        both(x, "snr_ecc_stationary", S.snr_ecc_stationary, k, S_ARGS)
    settings(x, calls)


def settings(x, calls):
    """every evaluation of the noise was asked for the same physical settings"""
    for c in calls:
        for q in ("t_obs", "L"):
            v, w = c[q], calls[0][q]
            if isinstance(w, u.Quantity):
                x.close("%s of the noise curve" % q, si(v, w.unit.decompose()), si(w, w.unit.decompose()))
            else:
                x.eq("%s of the noise curve" % q, v, w)


@scenario(bounds="1 source, 2 steps, merger time given; " + R, weight=2)
def evolving_snrs(x):
    S = x.lw.snr
    x.abstract_g()
    calls = psd_stub(x)
    serial(x)
    k, a0, be = binary(x, 1, "f")
    k["dist"] = x.real("d", 0.1, 100, u.kpc, (1,))
    which = x.choice("which", ["circular", "eccentric"])
    x.assume(0.18 * a0[0]**4 / (4 * be[0]) > 2e9)
    k["t_obs"], k["t_merge"] = x.real("t_obs", 1e7, 1e8, u.s), x.real("t_merge", 1e7, 1e9, u.s, (1,))
    apart(x, si(k["t_merge"][0], u.s) - (1.0 if which == "circular" else 0.1 * 365.25 * 86400), si(k["t_obs"], u.s), 10.0)
    if which == "circular":
        both(x, "snr_circ_evolving", lambda **q: S.snr_circ_evolving(n_step=2, **q), k, S_ARGS, few=True)
    else:
        e = x.real("e", 0.05, 0.6, None, (1,))
        both(x, "snr_ecc_evolving", lambda **q: S.snr_ecc_evolving(n_step=2, ecc=e, harmonics_required=2, **q), k, S_ARGS, few=True)
    settings(x, calls)


C_ARGS = dict(m_1="mass", m_2="mass", dist="distance", f_orb="frequency", a="length", polarisation="angle", inclination="angle")


@scenario(bounds="collections of 2 sources: derived quantities, strains, merger times, evolution; " + R, weight=2)
def collections(x):
    files(x)
    what = x.choice("what", ["properties", "strain", "merger time", "evolution"])
    kw = members(x, 2)
    form = x.choice("given", ["f_orb", "a"])
    if form == "a":
        del kw["f_orb"]
        kw["a"] = x.real("a", 1e-3, 1e-1, u.AU, (2,))
    if what in ("strain", "properties") and x.choice("position", [False, True]):
        kw["ecc"] = np.zeros(2)
        kw["position"] = position(x, (2,))[0]
        kw["polarisation"], kw["inclination"] = x.real("psi", 0, 3, u.rad, (2,)), x.real("inc", 0, 1.5, u.rad, (2,))
    if what in ("merger time", "evolution"):
        x.assume(kw["ecc"] > 1e-3)
    pick = x.choice("other units", kinds(kw, C_ARGS) if what != "evolution" else [("m_1", u.kg), (form, OTHER[C_ARGS[form]][0]), "everything"])
    s, r = source(x, kw), source(x, convert(kw, C_ARGS, pick))
    if what == "properties":
        for v in ("m_1", "m_2", "m_c", "dist", "f_orb", "a", "ecc", "polarisation", "inclination"):
            same(x, v, getattr(s, v), getattr(r, v))
    elif what == "strain":
        x.abstract_g()
        for v in ("get_h_0_n", "get_h_c_n"):
            same(x, v, getattr(s, v)([1, 2]), getattr(r, v)([1, 2]))
    else:
        stub_evol(x)
        same(x, "merger time", s.get_merger_time(), r.get_merger_time())
        if what == "evolution":
            t = x.real("t", 1e-3, 1e3, u.yr)
            for i in range(2):
                apart(x, si(t, u.s), si(s.t_merge[i], u.s), 1e3)
            new, tu = x.choice("new, time", [(False, u.s), (True, u.day), (True, u.Gyr)])
            p, q = s.evolve_sources(t, create_new_class=new), r.evolve_sources(t.to(tu), create_new_class=new)
            p, q = (p, q) if new else (s, r)
            for v in ("ecc", "f_orb", "merged", "t_merge"):
                same(x, v + " after evolving", getattr(p, v), getattr(q, v))


@scenario(bounds="collections of 2 sources: SNRs and masks with mission lengths and arm lengths in other units; " + R, weight=2)
def collection_snrs(x):
    from .sources import table
    files(x, table(3, 4, 0.9, (2, 2, 2)))
    calls = psd_stub(x)
    stub_stationarity(x)
    form = x.choice("sources", ["circular", "eccentric"])
    n = 2 if form == "circular" else 1
    # (with an arbitrary curve every harmonic may be the loudest one)
    calls = psd_stub(x, None if form == "circular" else lambda f: 1e-40 * (1 + 0.3 * np.arange(np.size(f))).reshape(np.shape(f)) / u.Hz)
    kw = members(x, n)
    kw["ecc"] = np.zeros(n) if form == "circular" else np.array([0.4])
    kw["dist"] = np.array([8.0, 9.0][:n]) * u.kpc
    how = x.choice("settings", ["stored", "given"])
    t, L = x.real("t", 1, 10, u.yr), 2e9 * u.m
    tu, lu = x.choice("units", [(u.s, u.km), (u.day, u.m), (u.Gyr, u.AU)])
    pick = x.choice("other units", [("m_1", u.kg), ("f_orb", u.mHz), ("dist", u.m), "everything"])
    kw2 = convert(kw, C_ARGS, pick)
    def get(kw, t, L):
        s = source(x, kw, sc_params=dict(t_obs=t, L=L) if how == "stored" else {})
        if how == "stored":
            return s, s.get_snr_stationary(), s.get_source_mask(stationary=True, t_obs=t)
        return s, s.get_snr_stationary(t_obs=t, L=L), s.get_source_mask(stationary=True, t_obs=t)
    s, a, m = get(kw, t, L)
    r, b, q = get(kw2, t.to(tu), L.to(lu))
    same(x, "SNR", a, b)
    same(x, "stationary sources", m, q)
    settings(x, calls)
