"""C17 confusion noise models."""
from engine.core import scenario, u
from props.common import *

R = "f in [1e-8,100] Hz (Robson fit: [1e-8,2] Hz), mission lengths in [0.1,10] yr (scalars and arrays of 1-3 frequencies, Hz and mHz)"
ASSUMPTIONS = ["mission lengths within 1e-6 yr of the midpoint between two tabulated ones, and frequencies given in mHz within 1e-9 (relative) of the "
               "Huang range limits, are outside", "coefficients as published (Robson+19 Table 1, Huang+20 Table II, Thiele+21, Karnesis+21 Table II column 4)"]
LEN_R = [0.5, 1.0, 2.0, 4.0]
ROBSON = [(0.133, 243.0, 482.0, 917.0, 2.58e-3), (0.171, 292.0, 1020.0, 1680.0, 2.15e-3),
          (0.165, 299.0, 611.0, 1340.0, 1.73e-3), (0.138, -221.0, 521.0, 1680.0, 1.13e-3)]
LEN_H = [0.5, 1.0, 2.0, 4.0, 5.0]
HUANG = [(-18.6, -1.22, 0.009, -1.87, 0.65, 3.6, -4.6), (-18.6, -1.13, -0.945, -1.02, 4.05, -4.5, -0.5),
         (-18.6, -1.45, 0.315, -1.19, -4.48, 10.8, -9.4), (-18.6, -1.43, -0.687, 0.24, -0.15, -1.8, -3.2),
         (-18.6, -1.51, -0.71, -1.13, -0.83, 13.2, -19.1)]
THIELE = (-540.315450, -554.061115, -233.748834, -44.021504, -3.112634)
MODELS = ["robson19", "huang20", "thiele21", "karnesis21", None]


def nearest(x, t, lengths):
    """index of the tabulated mission length nearest to t (yr)"""
    best = 0
    for k in range(1, len(lengths)):
        mid = (lengths[k - 1] + lengths[k]) / 2
        x.assume(abs(t - mid) > 1e-6)
        if t > mid:
            best = k
    return best


def fit(x, model, f, t):
    """published fit; f in Hz, t in yr, result in 1/Hz"""
    np = x.np
    if model is None:
        return 0.0
    if model == "robson19":
        al, be, ka, ga, fk = ROBSON[nearest(x, t, LEN_R)]
        return 9e-45 * pw(f, -7, 3) * np.exp(-f**al + be * f * np.sin(ka * f)) * (1 + np.tanh(ga * (fk - f)))
    if model == "huang20":
        co = HUANG[nearest(x, t, LEN_H)]
        if f < 1e-4 or f > 1.0:
            return 0.0
        l = np.log10(f / 1e-3)
        return 10**(2 * sum(a * l**i for i, a in enumerate(co)))
    if model == "thiele21":
        l = np.log10(f)
        return 10**sum(a * l**i for i, a in enumerate(THIELE)) * 4 * YR
    f1 = t**-0.15 * 10**-2.72
    fk = t**-0.37 * 10**-2.49
    return 1.15e-44 / 2 * pw(f, -7, 3) * np.exp(-(f / f1)**1.56) * (1 + np.tanh((fk - f) / 0.00067))


def f_in(x, shp, unit=None, hi=100):
    unit = unit or x.choice("frequency unit", [u.Hz, u.mHz])
    f = x.real("f" if hi == 100 else "f_low", 1e-8, hi, u.Hz, shp)
    v = si(f, u.Hz)
    if unit != u.Hz:
        # the conversion rounds
        for w in v if np.ndim(v) else [v]:
            x.assume(abs(w - 1e-4) > 1e-13)
            x.assume(abs(w - 1.0) > 1e-9)
    return f.to(unit), v


def run(x, model, shp, t, tv):
    fq, f = f_in(x, shp, hi=2 if model == "robson19" else 100)
    P = x.lw.psd
    if x.choice("through", ["dispatcher", "function"]) == "dispatcher" or model is None:
        out = P.get_confusion_noise(fq, model, **({} if t is None else dict(t_obs=t)))
    else:
        fn = getattr(P, "get_confusion_noise_" + model)
        out = fn(fq, **({} if t is None or model == "thiele21" else dict(t_obs=t)))
    x.shape("shape", out, shp or ())
    x.require("units", out.unit.is_equivalent(1 / u.Hz), str(out.unit))
    for i in range(shp[0] if shp else 1):
        fi, o = (f[i], out[i]) if shp else (f, out)
        want = fit(x, model, fi, tv)
        x.close("%s fit" % model, o, want / u.Hz, scale=1e-300 / u.Hz if not x.symbolic else None)
        x.true("never negative", o.to_value(1 / u.Hz) >= 0)


def mission(x, lo=0.1, hi=10):
    t = x.real("t_obs", lo, hi, u.yr)
    unit = x.choice("time unit", [u.yr, u.s])
    return t.to(unit), si(t, u.yr)


@scenario(bounds="scalar and array; " + R, weight=2)
def robson(x):
    t, tv = mission(x)
    run(x, "robson19", x.choice("shape", [None, (2,)]), t, tv)


@scenario(bounds="scalar and array; " + R, weight=3)
def huang(x):
    t, tv = mission(x)
    run(x, "huang20", x.choice("shape", [None, (2,)]), t, tv)


@scenario(bounds="scalar and array; " + R, weight=2)
def karnesis(x):
    t, tv = mission(x)
    run(x, "karnesis21", x.choice("shape", [None, (2,)]), t, tv)


@scenario(bounds="4 year missions; " + R)
def thiele(x):
    run(x, "thiele21", x.choice("shape", [None, (2,)]), x.choice("t_obs", [None, 4 * u.yr]), 4.0)


@scenario(bounds="no noise; " + R)
def none(x):
    t, tv = mission(x)
    run(x, None, x.choice("shape", [None, (3,)]), t, tv)


@scenario(bounds="default and 'auto' mission lengths of every model; " + R, weight=2)
def defaults(x):
    model = x.choice("model", MODELS)
    t = x.choice("t_obs", [None, "auto"])
    fq, f = f_in(x, (2,), u.Hz, hi=2 if model == "robson19" else 100)
    out = x.lw.psd.get_confusion_noise(fq, model, **({} if t is None else dict(t_obs=t)))
    x.shape("shape", out, (2,))
    for i in range(2):
        x.close("default mission length", out[i], fit(x, model, f[i], 5.0 if model == "huang20" else 4.0) / u.Hz,
                scale=1e-300 / u.Hz if not x.symbolic else None)
    if model in ("robson19", "huang20", "karnesis21") and t is None:
        out = getattr(x.lw.psd, "get_confusion_noise_" + model)(fq)
        for i in range(2):
            x.close("default of the function", out[i], fit(x, model, f[i], 5.0 if model == "huang20" else 4.0) / u.Hz,
                    scale=1e-300 / u.Hz if not x.symbolic else None)


@scenario(bounds="Thiele model with mission lengths other than 4 yr in [0.1,10] yr; six unknown names")
def rejected(x):
    P = x.lw.psd
    f = x.real("f", 1e-5, 1, u.Hz, (2,))
    t = x.real("t_obs", 0.1, 10, u.yr)
    x.assume(abs(si(t, u.yr) - 4) > 1e-3)
    x.raises("Thiele other mission length", ValueError, P.get_confusion_noise, f, "thiele21", t_obs=t)
    name = x.choice("name", ["nonsense", "", "Robson19", "robson", "auto", "thiele20"])
    x.raises("unknown model", ValueError, P.get_confusion_noise, f, name, t_obs=t)
    x.raises("unknown model", ValueError, P.get_confusion_noise, f, name)


@scenario(bounds="every exponential of the Robson, Karnesis and Thiele fits stays representable in double precision (argument below 709); "
          "f in [1e-8,2] Hz and, for the Robson fit, also in [2.5,100] Hz", weight=1)
def finite(x):
    model, lo, hi = x.choice("model, range", [("robson19", 1e-8, 2), ("karnesis21", 1e-8, 100), ("robson19", 2.5, 100)])
    t = x.real("t_obs", 0.1, 10, u.yr)
    f = x.real("f%g_%g" % (lo, hi), lo, hi, u.Hz)
    args = []
    if x.symbolic:
        real = x.np.exp
        x.stub_np("exp", lambda v, *a, **k: (args.append(v), real(v, *a, **k))[1])
    out = x.lw.psd.get_confusion_noise(f, model, t_obs=t)
    label = "finite above 2.5 Hz" if lo > 1 else "finite"
    if x.symbolic:
        for a in args:
            x.true(label, (a.value if isinstance(a, u.Quantity) else a) < 709)
    else:
        x.true(label, bool(np.all(np.isfinite(out.value))), "got %s at %s" % (out, f))


@scenario(bounds="Huang model at frequencies exactly at and next to its limits, any mission length; " + R)
def edges(x):
    f = np.array([1e-4, 1.0, 0.99e-4, 1.01])
    t, tv = mission(x)
    out = x.lw.psd.get_confusion_noise(f * u.Hz, "huang20", t_obs=t)
    x.shape("shape", out, (4,))
    for i in range(4):
        x.close("Huang fit at its limits", out[i], fit(x, "huang20", f[i], tv) / u.Hz)
