"""C16 DECIGO sensitivity."""
from engine.core import scenario, u
from props.common import *
from props.c17 import fit

R = "f in [1e-10,1e4] Hz, limits in [1e-10,0.1] and [1,1e3] Hz, mission length in [0.1,10] yr"
ASSUMPTIONS = ["the confusion fits are those of C17"]


def yagi(f, cn):
    r = 1 + (f / 7.36)**2
    return 6.53e-48 * r + 4.8e-51 * f**-4 / r + 5.33e-52 * f**-4 + cn


def freqs(x, shp, lo, hi, name="f", top=1e4):
    f = x.real(name, 1e-10, top, u.Hz, shp)
    return f, si(f, u.Hz)


def checks(x, out, f, shp, lo, hi, cn, tag=""):
    x.shape("shape" + tag, out, shp or ())
    x.require("units" + tag, out.unit.is_equivalent(1 / u.Hz), str(out.unit))
    for i in range(shp[0] if shp else 1):
        fi, o = (f[i], out[i]) if shp else (f, out)
        o = o.to_value(1 / u.Hz)
        if bool(fi >= lo) and bool(fi <= hi):
            x.true("positive" + tag, o > 0)
            x.close("Yagi & Seto" + tag, o, yagi(fi, cn(fi)))
        else:
            x.require("infinite outside the limits" + tag, x.np.isinf(o) and o > 0)


@scenario(bounds="1-3 frequencies, free limits, no confusion noise, any (ignored) arm length; " + R, weight=2)
def limits(x):
    shp = x.choice("shape", [None, (2,)])
    if x.choice("limits", ["default", "given"]) == "given":
        lo, hi = x.real("f_low", 1e-10, 0.1, u.Hz), x.real("f_high", 1, 1e3, u.Hz)
        kw = dict(f_low=lo.to(u.mHz), f_high=hi)
        lo, hi = si(lo, u.Hz), si(hi, u.Hz)
    else:
        lo, hi, kw = 1e-3, 1e2, {}
    f, v = freqs(x, shp, lo, hi)
    L = x.choice("L", [None, "auto", 1e6 * u.m])
    out = x.lw.psd.decigo_psd(f.to(x.choice("unit", [u.Hz, u.mHz])), L=L, confusion_noise=None, **kw)
    checks(x, out, v, shp, lo, hi, lambda f: 0.0)


@scenario(bounds="2 frequencies, every named confusion model and mission length, default limits (Robson fit: f < 2 Hz); " + R, weight=4)
def confusion(x):
    model = x.choice("model", ["karnesis21", "robson19", "huang20", "thiele21"])
    f, v = freqs(x, (2,), 1e-3, 1e2, *(("f2", 2) if model == "robson19" else ()))
    if model == "thiele21":
        t, tv = 4 * u.yr, 4.0
    else:
        t = x.real("t_obs", 0.1, 10, u.yr)
        tv = si(t, u.yr)
    out = x.lw.psd.decigo_psd(f, t_obs=t, confusion_noise=model)
    checks(x, out, v, (2,), 1e-3, 1e2, lambda f: fit(x, model, f, tv))


@scenario(bounds="custom confusion noise (a symbolic power law of f and the mission length); " + R)
def custom_confusion(x):
    f, v = freqs(x, (2,), 1e-3, 1e2)
    a = x.real("amplitude", 1e-50, 1e-30)
    t = x.real("t_obs", 0.1, 10, u.yr)

    def noise(f, t_obs):
        f = f.to_value(u.Hz) if isinstance(f, u.Quantity) else f
        return a * f**-2 * t_obs.to_value(u.yr) / u.Hz
    out = x.lw.psd.decigo_psd(f, t_obs=t, confusion_noise=noise)
    checks(x, out, v, (2,), 1e-3, 1e2, lambda f: a * f**-2 * si(t, u.yr))


@scenario(bounds="everything defaulted; " + R)
def defaults(x):
    f, v = freqs(x, (2,), 1e-3, 1e2)
    checks(x, x.lw.psd.decigo_psd(f), v, (2,), 1e-3, 1e2, lambda f: fit(x, "karnesis21", f, 4.0))


@scenario(bounds="frequencies exactly at and next to the default and given limits; " + R)
def edges(x):
    lo, hi, kw = x.choice("limits", [(1e-3, 1e2, {}), (0.25, 8.0, dict(f_low=0.25 * u.Hz, f_high=8 * u.Hz))])
    f = x.np.array([lo, hi, 0.99 * lo, 1.01 * hi])
    t = x.real("t_obs", 0.1, 10, u.yr)
    model = x.choice("model", [None, "karnesis21"])
    out = x.lw.psd.decigo_psd(f * u.Hz, t_obs=t, confusion_noise=model, **kw)
    checks(x, out, f, (4,), lo, hi, lambda v: fit(x, model, v, si(t, u.yr)))
