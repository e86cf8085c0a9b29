"""C28: the sensitivity curve in use always matches the current settings"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .sources import files, members, source, Curves, in_use, FULL
from .c24 import stub_stationarity, stub_snr, trio

R = "the PSD (C14-C18) is a different affine curve for every set of settings; frequencies 1e-9-100 Hz"


def psd_a(f, t_obs=None, L=None, approximate_R=None, confusion_noise=None):
    return 1e-40 / u.Hz


def noise_a(f, t):
    return 1e-40 / u.Hz


def op_set(k, v):
    def run(s, m):
        s.sc_params[k] = v
        m[k] = v
    return run


def op_update(d, how):
    def run(s, m):
        if how == "dict":
            s.sc_params.update(d)
        elif how == "kwargs":
            s.sc_params.update(**d)
        elif how == "pairs":
            s.sc_params.update(list(d.items()))
        elif how == "held":
            p = s.sc_params
            p.update(d)
        else:
            s.sc_params |= d
        m.update(d)
    return run


def op_reassign(d):
    def run(s, m):
        s.sc_params = dict(d)
        m.clear()
        m.update(FULL, **d)
    return run


def op_default(k, v):
    def run(s, m):
        s.sc_params.setdefault(k, v)
    return run


def op_snr(d, which):
    def run(s, m):
        getattr(s, which)(**d)
        m.update(d)
    return run


def op_bad(fn, exc):
    def run(s, m):
        try:
            fn(s)
        except exc:
            return
        raise AssertionError("not rejected")
    return run


def op_own(s, m):
    s.sc_params = s.sc_params


def bad_set(s):
    s.sc_params["colour"] = 1


def bad_assign(s):
    s.sc_params = {"instrument": "TianQin", "length": 3}


def bad_del(s):
    del s.sc_params["L"]


def bad_or(s):
    s.sc_params |= {"colour": 1}


def op_fail(fn, d):
    """a change for which no curve can be computed: rejected when there is a curve, and the collection stays as it was"""
    def run(s, m):
        if not s.interpolate_sc:
            fn(s)
            m.update(d)
            return
        try:
            fn(s)
        except ValueError:
            return
        raise AssertionError("not rejected")
    return run


def lisa_item(s):
    s.sc_params["instrument"] = "Lisa"


def lisa_or(s):
    s.sc_params |= {"t_obs": 2 * u.yr, "instrument": "Lisa"}


def lisa_assign(s):
    s.sc_params = dict(s.sc_params, instrument="Lisa", L=1e9 * u.m)


OPS = {
    "failing instrument": op_fail(lisa_item, dict(instrument="Lisa")), "failing or": op_fail(lisa_or, dict(instrument="Lisa", t_obs=2 * u.yr)),
    "failing update": op_fail(lambda s: s.sc_params.update(approximate_R=True, instrument="Lisa"), dict(instrument="Lisa", approximate_R=True)),
    "failing reassign": op_fail(lisa_assign, dict(instrument="Lisa", L=1e9 * u.m)),
    "failing snr": op_fail(lambda s: s.get_snr(instrument="Lisa", t_obs=1 * u.yr), dict(instrument="Lisa", t_obs=1 * u.yr)),
    "instrument": op_set("instrument", "TianQin"), "back to LISA": op_set("instrument", "LISA"), "t_obs": op_set("t_obs", 2 * u.yr),
    "days": op_set("t_obs", 2 * u.day), "slightly longer": op_set("t_obs", 2.0000002 * u.yr),
    "L": op_set("L", 1e9 * u.m), "L in km": op_update(dict(L=1e9 * u.km), "dict"), "approximate_R": op_set("approximate_R", True), "noise off": op_set("confusion_noise", None),
    "noise function": op_set("confusion_noise", noise_a),
    "update": op_update(dict(instrument="DECIGO", t_obs=1 * u.yr), "dict"), "update by name": op_update(dict(L=5e8 * u.m), "kwargs"),
    "update pairs": op_update(dict(approximate_R=True, t_obs="auto"), "pairs"), "held": op_update(dict(instrument="TianQin"), "held"),
    "or": op_update(dict(instrument="TianQin", L=1e8 * u.m), "or"),
    "custom": op_update(dict(instrument="custom", custom_psd=psd_a), "dict"),
    "reassign": op_reassign(dict(t_obs=3 * u.yr)), "reassign nothing": op_reassign({}), "reassign own": op_own,
    "setdefault": op_default("L", 7e9 * u.m),
    "snr": op_snr(dict(instrument="TianQin", approximate_R=True), "get_snr"), "snr stationary": op_snr(dict(t_obs=1 * u.yr), "get_snr_stationary"),
    "snr evolving": op_snr(dict(L=3e9 * u.m, confusion_noise="huang20"), "get_snr_evolving"), "snr default": op_snr({}, "get_snr"),
    "bad key": op_bad(bad_set, KeyError), "bad update": op_bad(lambda s: s.sc_params.update(L=1e6 * u.m, colour=3), KeyError),
    "bad reassign": op_bad(bad_assign, KeyError), "bad setdefault": op_bad(lambda s: s.sc_params.setdefault("colour", 1), KeyError),
    "bad or": op_bad(bad_or, KeyError),
    "del": op_bad(bad_del, TypeError), "pop": op_bad(lambda s: s.sc_params.pop("L"), TypeError),
    "popitem": op_bad(lambda s: s.sc_params.popitem(), TypeError), "clear": op_bad(lambda s: s.sc_params.clear(), TypeError),
}


def history(x, first, ops, on):
    files(x)
    curves = Curves(x)
    stub_stationarity(x)
    stub_snr(x, [])
    kw = trio(x, 1)
    kw["ecc"] = np.zeros(1)
    s = source(x, kw, interpolate_sc=on, sc_params=dict(first))
    model = dict(FULL, **first)
    check(x, s, curves, model, on)
    for k in ops:
        OPS[k](s, model)
        check(x, s, curves, model, on)
    if not on:
        x.eq("no curve computed", curves.calls, 0)
    return s, curves, model


def check(x, s, curves, model, on):
    x.eq("settings", sorted(s.sc_params), sorted(FULL))
    for k, v in model.items():
        g = s.sc_params[k]
        x.require("setting %s" % k, g is v or (isinstance(g, u.Quantity) == isinstance(v, u.Quantity) and g == v), "%r instead of %r" % (g, v))
    in_use(x, s, curves, model if on else None)


@scenario(bounds="every single change, from two initial settings, interpolation on and off; " + R)
def single(x):
    first, on = x.choice("initially", [({}, True), (dict(instrument="TianQin", t_obs=2 * u.yr, confusion_noise=None), True), ({}, False)])
    history(x, first, [x.choice("change", list(OPS))], on)


@scenario(bounds="every sequence of two changes, interpolation on; " + R, weight=4)
def double(x):
    a = x.choice("first", list(OPS))
    b = x.choice("second", [k for k in OPS if k != a])
    history(x, {}, [a, b], True)


@scenario(tier="thorough", bounds="every sequence of three changes out of 14; " + R, weight=4, max_paths=6000, seconds=3000)
def triple(x):
    some = ["instrument", "back to LISA", "t_obs", "update", "update pairs", "or", "custom", "reassign", "reassign nothing", "setdefault", "snr",
            "snr evolving", "snr default", "bad update"]
    a, b, c = x.choice("first", some), x.choice("second", some), x.choice("third", some)
    history(x, {}, [a, b, c], True)


@scenario(bounds="interpolation switched on or off and the curve set again; settings changed meanwhile; " + R)
def switched(x):
    on = x.choice("initially", [True, False])
    change = x.choice("meanwhile", ["instrument", "reassign", "snr default", "update"])
    s, curves, model = history(x, {}, [], on)
    s.interpolate_sc = not on
    early = x.choice("set again", ["before", "after", "both"])
    if early != "after":
        s.set_sc()
    OPS[change](s, model)
    if early != "before":
        s.set_sc()
    check(x, s, curves, model, not on)


@scenario(bounds="settings given to the constructor: shared with another collection, unknown, or partial; " + R)
def given(x):
    files(x)
    curves = Curves(x)
    kw = trio(x, 1)
    kw["ecc"] = np.zeros(1)
    case = x.choice("case", ["unknown", "dictionary kept", "another collection's", "two collections", "defaults"])
    if case == "unknown":
        x.raises("unknown setting", KeyError, source, x, kw, sc_params={"L": 1e9 * u.m, "colour": 2})
        return
    d = dict(instrument="TianQin")
    s = source(x, kw, interpolate_sc=True, sc_params=d)
    model = dict(FULL, instrument="TianQin")
    if case == "dictionary kept":
        s.sc_params["t_obs"] = model["t_obs"] = 1 * u.yr
        x.eq("the caller's dictionary", d, dict(instrument="TianQin"))
        d["instrument"] = "LISA"
        check(x, s, curves, model, True)
    elif case in ("another collection's", "two collections"):
        t = source(x, kw, interpolate_sc=True, sc_params=s.sc_params if case[0] == "a" else d)
        t.sc_params["instrument"] = "DECIGO"
        check(x, t, curves, dict(model, instrument="DECIGO"), True)
        check(x, s, curves, model, True)
        s.sc_params.update(t_obs=1 * u.yr)
        check(x, t, curves, dict(model, instrument="DECIGO"), True)
        check(x, s, curves, dict(model, t_obs=1 * u.yr), True)
    else:
        t = source(x, kw, interpolate_sc=True)
        t.sc_params["L"] = 1e9 * u.m
        check(x, source(x, kw, interpolate_sc=True), curves, FULL, True)
