"""C18 instrument selection and defaults."""
from engine.core import scenario, u
from props.common import *
from props import c14, c15, c16
from props.c17 import fit

R = "f in [1e-8,100] Hz (custom curves [1e-10,1e4] Hz), arm length in [1e8,1e10] m, mission length in [0.1,10] yr"
ASSUMPTIONS = ["documented defaults: LISA 2.5e9 m, 4 yr, karnesis21; TianQin sqrt(3) 1e8 m, 5 yr, huang20; "
               "DECIGO 4 yr, karnesis21"]


def one(x, combos):
    ins, Lc, tc, cc, ap = x.choice("instrument, arm, mission, confusion, approximate", combos)
    low = cc == "robson19"
    f = x.real("f_low" if low else "f", 1e-8, 2 if low else 100, u.Hz, (2,))
    v = si(f, u.Hz)
    kw = {}
    L = {"LISA": 2.5e9, "TianQin": c15.L0, "DECIGO": None}[ins]
    if Lc == "given":
        kw["L"] = x.real("L", 1e8, 1e10, u.m)
        L = si(kw["L"], u.m)
    elif Lc == "auto":
        kw["L"] = "auto"
    t = 5.0 if ins == "TianQin" else 4.0
    if tc == "given":
        kw["t_obs"] = x.real("t_obs", 0.1, 10, u.yr)
        t = si(kw["t_obs"], u.yr)
    elif tc == "auto":
        kw["t_obs"] = "auto"
    model = "huang20" if ins == "TianQin" else "karnesis21"
    if cc == "custom":
        a = x.real("amplitude", 1e-50, 1e-30)

        def noise(f, t_obs):
            f = f.to_value(u.Hz) if isinstance(f, u.Quantity) else f
            return a * f**-2 * t_obs.to_value(u.yr) / u.Hz
        kw["confusion_noise"] = noise
        cn = lambda f: a * f**-2 * t
    else:
        if cc != "omitted":
            kw["confusion_noise"] = cc
            model = model if cc == "auto" else cc
        cn = lambda f: fit(x, model, f, t)
    if ap is not None:
        kw["approximate_R"] = ap
    if ins == "LISA" and not ap:
        c14.clear_of_table_end(x, v, L)
    if ins != "LISA" or x.choice("instrument argument", ["given", "omitted"]) == "given":
        kw["instrument"] = ins
    out = x.lw.psd.power_spectral_density(f, **kw)
    if ins == "LISA":
        c14.checks(x, out, v, (2,), L, bool(ap), cn)
    elif ins == "TianQin":
        c15.checks(x, out, v, (2,), L, cn)
    else:
        c16.checks(x, out, v, (2,), 1e-3, 1e2, cn)


@scenario(bounds="LISA with mixes of explicit, 'auto' and omitted settings; " + R, weight=4)
def lisa(x):
    one(x, [("LISA", "omitted", "omitted", "omitted", None), ("LISA", "auto", "given", "auto", False), ("LISA", "given", "auto", None, True),
            ("LISA", "given", "given", "custom", False), ("LISA", "auto", "auto", "custom", True), ("LISA", "given", "given", "robson19", True),
            ("LISA", "auto", "given", "huang20", False), ("LISA", "omitted", "auto", "thiele21", True), ("LISA", "given", "auto", "auto", True)])


@scenario(bounds="TianQin with mixes of explicit, 'auto' and omitted settings; " + R, weight=4)
def tianqin(x):
    one(x, [("TianQin", "omitted", "omitted", "omitted", None), ("TianQin", "auto", "given", "auto", False), ("TianQin", "given", "auto", None, True),
            ("TianQin", "given", "given", "custom", False), ("TianQin", "auto", "auto", "custom", True), ("TianQin", "given", "given", "robson19", None),
            ("TianQin", "auto", "given", "karnesis21", False), ("TianQin", "given", "auto", "auto", False)])


@scenario(bounds="DECIGO with mixes of explicit, 'auto' and omitted settings; " + R, weight=4)
def decigo(x):
    one(x, [("DECIGO", "omitted", "omitted", "omitted", None), ("DECIGO", "auto", "given", "auto", False), ("DECIGO", "auto", "auto", None, True),
            ("DECIGO", "given", "given", "custom", False), ("DECIGO", "auto", "auto", "custom", True), ("DECIGO", "auto", "given", "robson19", None),
            ("DECIGO", "auto", "given", "huang20", False)])


@scenario(bounds="a custom sensitivity (a symbolic power law of f, L and the mission length), explicit settings and 'auto' settings; " + R, weight=2)
def custom(x):
    f = x.real("f", 1e-10, 1e4, u.Hz, (2,))
    seen = {}
    k = x.real("k", 1e-50, 1e-30)

    def noise(f, t_obs):
        return 0.0 / u.Hz

    def psd(f, t_obs, L, approximate_R, confusion_noise):
        seen.update(t_obs=t_obs, L=L, approximate_R=approximate_R, confusion_noise=confusion_noise)
        tv = 1.0 if isinstance(t_obs, str) else t_obs.to_value(u.yr)
        Lv = 1.0 if isinstance(L, str) else L.to_value(u.m)
        return k * f.to_value(u.Hz)**-2 * tv * Lv / u.Hz
    t, L = x.real("t_obs", 0.1, 10, u.yr), x.real("L", 1e8, 1e10, u.m)
    case = x.choice("settings", ["explicit", "auto"])
    cn = x.choice("confusion", [None, "custom", "robson19"])
    ap = x.choice("approximate_R", [True, False])
    kw = dict(t_obs=t, L=L) if case == "explicit" else {}
    out = x.lw.psd.power_spectral_density(f, instrument="custom", custom_psd=psd, approximate_R=ap,
                                          confusion_noise=noise if cn == "custom" else cn, **kw)
    x.shape("shape", out, (2,))
    for i in range(2):
        x.close("result used as is", out[i].to_value(1 / u.Hz), k * si(f, u.Hz)[i]**-2 * (si(t, u.yr) * si(L, u.m) if kw else 1.0))
    if kw:
        x.close("mission length", seen["t_obs"], t)
        x.close("arm length", seen["L"], L)
    x.require("response option", seen["approximate_R"] is ap, repr(seen["approximate_R"]))
    x.require("confusion setting", seen["confusion_noise"] is (noise if cn == "custom" else cn), repr(seen["confusion_noise"]))


@scenario(bounds="six unknown instrument names, unknown confusion names for each instrument")
def rejected(x):
    P = x.lw.psd
    f = x.real("f", 1e-3, 1, u.Hz, (2,))
    n = x.choice("name", ["nonsense", "lisa", "", "Lisa", "Custom", "TAIJI", None])
    x.raises("unknown instrument", ValueError, P.power_spectral_density, f, instrument=n)
    x.raises("unknown confusion", ValueError, P.power_spectral_density, f, instrument=x.choice("ins", ["LISA", "TianQin", "DECIGO"]),
             confusion_noise="nonsense")
