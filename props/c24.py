"""C24: every source of a collection is analysed by exactly one, the right, SNR method"""
import inspect
import math

import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si
from .sources import files, members, source, table

R = ("masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0-0.995; determine_stationarity (C13) and the four SNR functions "
     "(C19-C22) are arbitrary functions of their arguments; harmonic tables stubbed (up to 3000 harmonics)")


def bound(fn, a, k):
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    p = dict(b.arguments)
    for name, q in inspect.signature(fn).parameters.items():
        if q.kind is q.VAR_KEYWORD:
            p.update(p.pop(name))
    return p


def drift(x, m1, m2, f, e, t):
    """decimal logarithm of the change of frequency over the mission (relative), arbitrary"""
    return x.unknown("drift", [mc(x, m1, m2), si(f, u.Hz), e, si(t, u.s)], -3.0, -0.5)


def mc(x, m1, m2):
    return si(x.lw.utils.chirp_mass(m1, m2), u.Msun)


def stub_stationarity(x, t_seen=None):
    real = x.lw.evol.determine_stationarity

    def determine_stationarity(*a, **k):
        p = bound(real, a, k)
        out = []
        for i in range(len(p["f_orb_i"])):
            m = si(p["m_c"][i], u.Msun) if p["m_c"] is not None else mc(x, p["m_1"][i], p["m_2"][i])
            t = p["t_evol"][i] if np.ndim(p["t_evol"]) else p["t_evol"]
            d = x.unknown("drift", [m, si(p["f_orb_i"][i], u.Hz), p["ecc_i"][i], si(t, u.s)], -3.0, -0.5)
            out.append(bool(d <= math.log10(p["stat_tol"])))
        return np.array(out, dtype=bool)
    x.replace(real, determine_stationarity)


def is_stat(x, kw, i, t, tol):
    return bool(drift(x, kw["m_1"][i], kw["m_2"][i], kw["f_orb"][i], kw["ecc"][i], t) <= math.log10(tol))


AUTO = {"LISA": 4 * u.yr, "TianQin": 5 * u.yr, "DECIGO": 5 * u.yr, "custom": 5 * u.yr}


@scenario(bounds="2 sources, every combination of selections, explicit or default observation time; " + R, weight=2)
def masks(x):
    files(x)
    stub_stationarity(x)
    kw = members(x, 2)
    tol = x.choice("tolerances", [(0.05, 1e-2), (0.3, 1e-1)])
    inst, t, arg = x.choice("observation", [("LISA", "auto", None), ("TianQin", "auto", None), ("LISA", "given", None),
                                            ("LISA", "auto", "given"), ("TianQin", "given", "longer"), ("custom", "auto", "auto")])
    t_sc = x.real("t_sc", 0.1, 10, u.yr) if t == "given" else "auto"
    t_arg = {None: None, "auto": "auto", "given": x.real("t_arg", 0.1, 10, u.yr), "longer": 9 * u.yr}[arg]
    s = source(x, kw, gw_lum_tol=tol[0], stat_tol=tol[1], sc_params=dict(instrument=inst, t_obs=t_sc))
    t_eff = t_sc if t_arg is None else t_arg
    t_eff = AUTO[inst] if isinstance(t_eff, str) else t_eff
    circ = x.choice("circular", [None, True, False])
    stat = x.choice("stationary", [None, True, False])
    got = s.get_source_mask(circular=circ, stationary=stat, t_obs=t_arg)
    x.shape("shape of the mask", got, (2,))
    for i in range(2):
        want = True
        if circ is not None:
            want = bool(kw["ecc"][i] <= s.ecc_tol) == circ
        if want and stat is not None:
            want = is_stat(x, kw, i, t_eff, tol[1]) == stat
        x.require("selection", bool(got[i]) == want, "source %d: %r instead of %r" % (i, got[i], want))


@scenario(bounds="invalid selections")
def invalid(x):
    files(x)
    stub_stationarity(x)
    s = source(x, members(x, 1))
    bad = x.choice("value", ["yes", 2, "", 3.5])
    which = x.choice("argument", ["circular", "stationary"])
    x.raises("invalid %s" % which, ValueError, s.get_source_mask, **{which: bad})


# ------------------------------------------------------------------------------------------------------------------ SNR
KIND = {"snr_circ_stationary": (True, True), "snr_ecc_stationary": (False, True),
        "snr_circ_evolving": (True, False), "snr_ecc_evolving": (False, False)}


def value(x, name, kw, i, t):
    d = si(kw["dist"][i], u.kpc)
    f, e = si(kw["f_orb"][i], u.Hz), kw["ecc"][i]
    a = {"snr_circ_stationary": lambda: [mc(x, kw["m_1"][i], kw["m_2"][i]), f, d],
         "snr_ecc_stationary": lambda: [mc(x, kw["m_1"][i], kw["m_2"][i]), f, e, d],
         "snr_circ_evolving": lambda: [si(kw["m_1"][i], u.Msun), si(kw["m_2"][i], u.Msun), f, d],
         "snr_ecc_evolving": lambda: [si(kw["m_1"][i], u.Msun), si(kw["m_2"][i], u.Msun), f, e, d]}[name]()
    return x.unknown(name, a + [si(t, u.s)], 0.1, 1e4)


def stub_snr(x, log):
    """the four SNR functions: arbitrary functions of each source's parameters and the observation time; the dominant
    harmonic reported for a source is 2 + its distance in kpc (the sources have distances 1, 2, 3 kpc)"""
    for name in KIND:
        real = getattr(x.lw.snr, name)

        def fn(*a, _name=name, _real=real, **k):
            p = bound(_real, a, k)
            f = p.get("f_orb", p.get("f_orb_i"))
            n = len(f)
            log.append((_name, p))
            out = np.empty(n, dtype=object if x.symbolic else float)
            sub = dict(dist=p["dist"], f_orb=f, ecc=p.get("ecc"))
            tags = []
            for i in range(n):
                e = p["ecc"][i] if "ecc" in p else None
                fi, d = si(f[i], u.Hz), si(p["dist"][i], u.kpc)
                if p.get("m_c") is not None:
                    v = [si(p["m_c"][i], u.Msun), fi] + ([] if e is None else [e]) + [d]
                else:
                    v = [si(p["m_1"][i], u.Msun), si(p["m_2"][i], u.Msun), fi] + ([] if e is None else [e]) + [d]
                out[i] = x.unknown(_name, v + [si(p["t_obs"], u.s)], 0.1, 1e4)
                tags.append(2 + int(round(float(d))))
            if p.get("ret_max_snr_harmonic"):
                return out, np.array(tags)
            return out
        x.replace(real, fn)


def checks_of_calls(x, s, log, settings, n_step, t_merge=None, g=None):
    for name, p in log:
        for k, v in settings.items():
            x.require("setting %s" % k, p[k] is v or (not isinstance(v, u.Quantity) and p[k] == v)
                      or (isinstance(v, u.Quantity) and isinstance(p[k], u.Quantity) and bool(p[k] == v)), "%r instead of %r" % (p[k], v))
        x.require("curve in use", p["interpolated_sc"] is s.sc)
        x.require("interpolated g in use", p["interpolated_g"] is s.g)
        if "n_step" in p and n_step is not None:
            x.eq("number of steps", p["n_step"], n_step)
        if "harmonics_required" in p:
            need = s.harmonics_required(p["ecc"])
            for i in range(len(need)):
                x.true("enough harmonics", need[i] <= p["harmonics_required"])
        if t_merge is not None and p.get("t_merge") is not None:
            for i in range(len(p["t_merge"])):
                j = int(round(float(si(p["dist"][i], u.kpc)))) - 1
                x.close("merger time handed on", si(p["t_merge"][i], u.s), si(t_merge[j], u.s))


def trio(x, n):
    kw = members(x, n)
    kw["dist"] = np.arange(1.0, n + 1) * u.kpc
    return kw


PATTERNS = [((False, False), None), ((True, False), None), ((False, False), (False, True)), ((False, True), (True, True)),
            ((True, False), (True, False)), ((True, True), None)]


def judge(x, s, kw, got, n, merged, sel, t, tol, order=None):
    """got = SNR of every source in order; the record agrees"""
    x.shape("shape of the SNR", got, (n,))
    x.shape("shape of the recorded SNR", s.snr, (n,))
    for i in range(n):
        x.close("recorded SNR", s.snr[i], got[i])
        if merged[i] or not sel[i]:
            x.close("SNR of a merged or unselected source", got[i], 0.0)
            continue
        circ = bool(kw["ecc"][i] <= s.ecc_tol)
        stat = is_stat(x, kw, i, t, tol)
        name = [k for k, v in KIND.items() if v == (circ, stat)][0]
        x.close("SNR of the source's own class", got[i], value(x, name, kw, i, t))
        x.eq("dominant harmonic", int(s.max_snr_harmonic[i]), 2 if circ else 3 + i)


@scenario(bounds="2 sources with every pattern of merged and selected ones; " + R, weight=4)
def routing(x):
    n = 2
    files(x, table(5, 3000, spread=(2, 2, 30, 300, 3000)))
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    merged, sel = x.choice("merged and selected", PATTERNS)
    kw = trio(x, n)
    s = source(x, kw)
    s.merged = np.array(merged)
    t = x.real("t_obs", 0.1, 10, u.yr)
    got = s.get_snr(t_obs=t, n_step=37, which_sources=None if sel is None else np.array(sel))
    judge(x, s, kw, got, n, merged, sel or (True,) * n, t, 1e-2)
    checks_of_calls(x, s, log, dict(instrument="LISA", custom_psd=None, L="auto", approximate_R=False, confusion_noise="auto"), 37)


def noise_fn(f, t):
    return 0


VARIED = [dict(), dict(instrument="TianQin"), dict(L=2e9 * u.m, approximate_R=True), dict(confusion_noise=None, instrument="DECIGO"),
          dict(instrument="custom", custom_psd=abs), dict(confusion_noise=noise_fn)]


@scenario(bounds="2 sources (one possibly merged), settings given as arguments or stored, default or explicit observation time; " + R, weight=4)
def settings(x):
    n = 2
    files(x)
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    given = x.choice("settings", VARIED)
    how, t = x.choice("how", [("arguments", "auto"), ("stored", "auto"), ("stored", "given"), ("arguments", "given")])
    kw = trio(x, n)
    kw["ecc"] = np.array([0.0, 0.5])
    t_obs = x.real("t_obs", 0.1, 10, u.yr) if t == "given" else "auto"
    want = dict(instrument="LISA", custom_psd=None, L="auto", approximate_R=False, confusion_noise="auto")
    want.update(given)
    if "confusion_noise" in given and given["confusion_noise"] is None:
        how = "stored"          # (as an argument None stands for the stored setting)
    if how == "stored":
        s = source(x, kw, sc_params=dict(given, t_obs=t_obs))
        got = s.get_snr()
        n_step = 100
    else:
        s = source(x, kw)
        got = s.get_snr(t_obs=None if t == "auto" else t_obs, **given)
        n_step = None
    t_eff = AUTO[want["instrument"]] if t == "auto" else t_obs
    judge(x, s, kw, got, n, (False,) * n, (True,) * n, t_eff, 1e-2)
    checks_of_calls(x, s, log, want, n_step)


@scenario(bounds="2 sources; the stationary or evolving method asked for directly, for all or one of the sources, and the two subclasses; " + R,
          weight=3)
def direct(x):
    n = 2
    files(x, table(3, 40, spread=(2, 2, 40)))
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    merged, sel = x.choice("merged and selected", PATTERNS[:5])
    kind, sub = x.choice("method", [("stationary", False), ("evolving", False), ("stationary", True), ("evolving", True)])
    kw = trio(x, n)
    s = source(x, kw, cls={"stationary": "Stationary", "evolving": "Evolving"}[kind] if sub else "Source")
    s.merged = np.array(merged)
    t = x.real("t_obs", 0.1, 10, u.yr)
    tm = None
    if kind == "evolving" and merged[0] == merged[1]:
        tm = x.real("t_merge", 0.1, 1e4, u.yr, (n,))
        s.t_merge = tm
    if sub:
        sel = None
        got = s.get_snr(t_obs=t)
    else:
        got = getattr(s, "get_snr_" + kind)(t_obs=t, which_sources=None if sel is None else np.array(sel))
    idx = [i for i in range(n) if sel is None or sel[i]]
    x.shape("shape of the SNR", got, (len(idx),))
    for k, i in enumerate(idx):
        if merged[i]:
            x.close("SNR of a merged source", got[k], 0.0)
            continue
        circ = bool(kw["ecc"][i] <= s.ecc_tol)
        name = [key for key, v in KIND.items() if v == (circ, kind == "stationary")][0]
        x.close("SNR in order of the selected sources", got[k], value(x, name, kw, i, t))
        x.close("recorded SNR", s.snr[i], got[k])
        x.eq("dominant harmonic", int(s.max_snr_harmonic[i]), 2 if circ else 3 + i)
    checks_of_calls(x, s, log, dict(instrument="LISA", custom_psd=None, L="auto", approximate_R=False, confusion_noise="auto"), None, tm)


@scenario(bounds="1-2 sources, two analyses in a row with different observation times, selections or methods; " + R, weight=4)
def history(x):
    n = 2
    files(x)
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    kw = trio(x, n)
    kw["ecc"] = x.choice("eccentricities", [np.zeros(2), np.array([0.0, 0.5])])
    s = source(x, kw)
    t1, t2 = x.real("t1", 0.1, 10, u.yr), x.real("t2", 0.1, 10, u.yr)
    first = s.get_snr(t_obs=t1)
    keep = x.snapshot(first)
    second = x.choice("then", ["all", "subset", "stationary", "evolving", "default"])
    if second in ("all", "default"):
        if second == "default":
            t2 = t1     # the observation time given last stays in force
        got = s.get_snr(t_obs=t2 if second == "all" else None)
        judge(x, s, kw, got, n, (False,) * n, (True,) * n, t2, 1e-2)
    elif second == "subset":
        got = s.get_snr(t_obs=t2, which_sources=np.array([False, True]))
        judge(x, s, kw, got, n, (False,) * n, (False, True), t2, 1e-2)
    else:
        got = getattr(s, "get_snr_" + second)(t_obs=t2, which_sources=np.array([False, True]))
        x.shape("shape of the SNR", got, (1,))
        circ = bool(kw["ecc"][1] <= s.ecc_tol)
        name = [key for key, v in KIND.items() if v == (circ, second == "stationary")][0]
        x.close("SNR of the selected source", got[0], value(x, name, kw, 1, t2))
        x.close("recorded SNR", s.snr[1], got[0])
        x.close("record of the other source", s.snr[0], keep[0])
    x.unchanged("result of the first analysis", first, keep)


@scenario(bounds="1 source; default observation time analysed with one instrument, then another; " + R)
def auto(x):
    files(x)
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    kw = trio(x, 1)
    s = source(x, kw)
    seq = x.choice("instruments", [("LISA", "TianQin"), ("TianQin", "LISA"), ("LISA", "DECIGO", "LISA")])
    for inst in seq:
        got = s.get_snr(instrument=inst)
        judge(x, s, kw, got, 1, (False,), (True,), AUTO[inst], 1e-2)


@scenario(bounds="6 sources, two of them merged, all or four selected, circular and eccentric, each stationary or evolving; " + R, weight=2)
def many(x):
    n = 6
    files(x)
    stub_stationarity(x)
    log = []
    stub_snr(x, log)
    merged, sel = x.choice("merged and selected", [((False, True, False, False, False, True), None),
                                                   ((True,) + (False,) * 5, (True, True, False, True, True, False))])
    kw = trio(x, n)
    kw["ecc"] = np.array([0.3, 0.0, 0.0, 0.6, 0.0, 0.1])
    s = source(x, kw)
    s.merged = np.array(merged)
    t = x.real("t_obs", 0.1, 10, u.yr)
    got = s.get_snr(t_obs=t, which_sources=None if sel is None else np.array(sel))
    judge(x, s, kw, got, n, merged, sel or (True,) * n, t, 1e-2)
