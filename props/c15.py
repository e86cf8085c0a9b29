"""C15 TianQin sensitivity."""
from engine.core import scenario, u
from props.common import *
from props.c17 import fit

R = "f in [1e-8,100] Hz, arm length in [1e6,1e11] m, mission length in [0.1,10] yr"
ASSUMPTIONS = ["the confusion fits are those of C17"]
L0 = 3**0.5 * 1e8


def huang13(f, L, cn):
    fs = C / (2 * PI * L)
    return 10 / (3 * L**2) * (4 * 1e-30 / (2 * PI * f)**4 * (1 + 1e-4 / f) + 1e-24) * (1 + 0.6 * (f / fs)**2) + cn


def checks(x, out, f, shp, L, cn, tag=""):
    x.shape("shape" + tag, out, shp or ())
    x.require("units" + tag, out.unit.is_equivalent(1 / u.Hz), str(out.unit))
    for i in range(shp[0] if shp else 1):
        fi, o = (f[i], out[i]) if shp else (f, out)
        o = o.to_value(1 / u.Hz)
        x.true("positive" + tag, o > 0)
        x.close("Huang Eq. 13 x 10/3" + tag, o, huang13(fi, L, cn(fi)))


@scenario(bounds="1-3 frequencies, free arm length, any response option, no confusion noise; " + R, weight=2)
def arm_lengths(x):
    shp = x.choice("shape", [None, (3,)])
    f = x.real("f", 1e-8, 100, u.Hz, shp)
    L = x.real("L", 1e6, 1e11, u.m)
    ap = x.choice("approximate_R", [None, True, False])
    out = x.lw.psd.tianqin_psd(f.to(x.choice("frequency unit", [u.Hz, u.mHz])), L=L.to(x.choice("length unit", [u.m, u.km])),
                               approximate_R=ap, confusion_noise=None)
    checks(x, out, si(f, u.Hz), shp, si(L, u.m), lambda f: 0.0)


@scenario(bounds="2 frequencies, every named confusion model and mission length; " + R, weight=4)
def confusion(x):
    model = x.choice("model", ["huang20", "robson19", "karnesis21", "thiele21"])
    f = x.real("f" if model != "robson19" else "f_low", 1e-8, 100 if model != "robson19" else 2, u.Hz, (2,))
    if model == "thiele21":
        t, tv = 4 * u.yr, 4.0
    else:
        t = x.real("t_obs", 0.1, 10, u.yr)
        tv = si(t, u.yr)
    out = x.lw.psd.tianqin_psd(f, t_obs=t, confusion_noise=model)
    checks(x, out, si(f, u.Hz), (2,), L0, lambda f: fit(x, model, f, tv))


@scenario(bounds="custom confusion noise (a symbolic power law of f and the mission length); " + R)
def custom_confusion(x):
    f = x.real("f", 1e-8, 100, u.Hz, (2,))
    a = x.real("amplitude", 1e-50, 1e-30)
    t = x.real("t_obs", 0.1, 10, u.yr)
    L = x.real("L", 1e6, 1e11, u.m)

    def noise(f, t_obs):
        f = f.to_value(u.Hz) if isinstance(f, u.Quantity) else f
        return a * f**-2 * t_obs.to_value(u.yr) / u.Hz
    out = x.lw.psd.tianqin_psd(f, t_obs=t, L=L, confusion_noise=noise)
    checks(x, out, si(f, u.Hz), (2,), si(L, u.m), lambda f: a * f**-2 * si(t, u.yr))


@scenario(bounds="everything defaulted; " + R)
def defaults(x):
    shp = x.choice("shape", [None, (2,)])
    f = x.real("f", 1e-8, 100, u.Hz, shp)
    checks(x, x.lw.psd.tianqin_psd(f), si(f, u.Hz), shp, L0, lambda f: fit(x, "huang20", f, 5.0))
