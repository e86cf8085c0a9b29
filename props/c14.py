"""C14 LISA sensitivity."""
from engine.core import scenario, u
from props.common import *
from props.c17 import fit

R = "f in [1e-9,100] Hz, arm length in [1e8,1e11] m, mission length in [0.1,10] yr"
ASSUMPTIONS = ["the response spline is one uninterpreted function of f/f* per table; inside the table it stays positive (measured: 3.5e-5 to 0.301)",
               "frequencies given in mHz: those within 1e-9 (relative) of the band edges are outside (the conversion rounds)", "the confusion fits are those of C17"]
LO, HI = 1e-7, 2.0


def table(x):
    import os
    from importlib import resources
    return np.load(os.path.join(os.path.dirname(x.lw.__file__), "R.npy"), allow_pickle=True)


def spline(x, xs, ys, v):
    if x.symbolic:
        from engine import npx
        return npx.splev(v, npx.splrep(xs, ys, s=0))
    from scipy.interpolate import splrep, splev
    return float(splev(v, splrep(xs, ys, s=0)))


def response(x, f, L, approx):
    fs = C / (2 * PI * L)
    if approx:
        return 0.3 / (1 + 0.6 * (f / fs)**2)
    fR, RR = table(x)
    return spline(x, x.np.array([v * fs for v in fR]) if x.symbolic else fR * fs, RR, f)


def robson12(x, f, L, Rv, cn):
    fs = C / (2 * PI * L)
    poms = 1.5e-11**2 * (1 + (2e-3 / f)**4)
    pacc = 3e-15**2 * (1 + (0.4e-3 / f)**2) * (1 + (f / 8e-3)**4)
    return (poms + 2 * (1 + x.np.cos(f / fs)**2) * pacc / (2 * PI * f)**4) / L**2 / Rv + cn


def freqs(x, shp, unit=u.Hz, lo=1e-9, hi=100):
    f = x.real("f", lo, hi, u.Hz, shp)
    v = si(f, u.Hz)
    for i in range(shp[0] if shp else 1):
        w = v[i] if shp else v
        if unit != u.Hz:
            # the conversion rounds
            x.assume(abs(w - LO) > 1e-9 * LO)
            x.assume(abs(w - HI) > 1e-9 * HI)
    return f.to(unit), v


def clear_of_table_end(x, v, L):
    end = table(x)[0][-1] * C / (2 * PI * L)
    for w in v if np.ndim(v) else [v]:
        x.assume(abs(w - end) > 1e-9 * end)


def inside(f):
    return bool(f >= LO) and bool(f <= HI)


def checks(x, out, f, shp, L, approx, cn, tag=""):
    """cn: function of f (Hz) giving the confusion noise"""
    x.shape("shape" + tag, out, shp or ())
    x.require("units" + tag, out.unit.is_equivalent(1 / u.Hz), str(out.unit))
    tab_end = table(x)[0][-1]
    for i in range(shp[0] if shp else 1):
        fi, o = (f[i], out[i]) if shp else (f, out)
        o = o.to_value(1 / u.Hz)
        if inside(fi):
            x.true("positive in band" + tag, o > 0)
            if not approx:
                if fi > tab_end * C / (2 * PI * L):
                    continue        # beyond the response file: only positivity is claimed
            x.close("Robson Eq. 12" + tag, o, robson12(x, fi, L, response(x, fi, L, approx), cn(fi)))
        else:
            x.require("infinite outside the band" + tag, x.np.isinf(o) and o > 0)


@scenario(bounds="1-2 frequencies, free arm length, table and approximate response, no confusion noise; " + R, weight=2)
def response_options(x):
    shp = x.choice("shape", [None, (2,)])
    f, v = freqs(x, shp, x.choice("frequency unit", [u.Hz, u.mHz]))
    ap = x.choice("approximate", [False, True])
    L = x.real("L", 1e8, 1e11, u.m)
    if not ap:
        clear_of_table_end(x, v, si(L, u.m))
    out = x.lw.psd.lisa_psd(f, L=L.to(u.km), approximate_R=ap, confusion_noise=None)
    checks(x, out, v, shp, si(L, u.m), ap, lambda f: 0.0)


@scenario(bounds="2 frequencies, every named confusion model and mission length, default arm length; " + R, weight=4)
def confusion(x):
    model = x.choice("model", ["robson19", "karnesis21", "huang20", "thiele21", None])
    f, v = freqs(x, (2,))
    if model == "thiele21":
        t, tv = x.choice("t_obs", [4 * u.yr]), 4.0
    else:
        t = x.real("t_obs", 0.1, 10, u.yr)
        tv = si(t, u.yr)
    out = x.lw.psd.lisa_psd(f, t_obs=t, confusion_noise=model, approximate_R=x.choice("approximate", [False, True]))
    checks(x, out, v, (2,), 2.5e9, x.choices["approximate"] == "True", lambda f: fit(x, model, f, tv))


@scenario(bounds="2 frequencies, custom confusion noise (a symbolic power law in f and the mission length); " + R, weight=2)
def custom_confusion(x):
    f, v = freqs(x, (2,))
    a = x.real("amplitude", 1e-50, 1e-30)
    t = x.real("t_obs", 0.1, 10, u.yr)

    def noise(f, t_obs):
        f = f.to_value(u.Hz) if isinstance(f, u.Quantity) else f
        return a * f**-2 * t_obs.to_value(u.yr) / u.Hz
    L = x.real("L", 1e8, 1e10, u.m)
    clear_of_table_end(x, v, si(L, u.m))
    out = x.lw.psd.lisa_psd(f, t_obs=t, L=L, confusion_noise=noise)
    checks(x, out, v, (2,), si(L, u.m), False, lambda f: a * f**-2 * si(t, u.yr))


@scenario(bounds="everything defaulted; " + R)
def defaults(x):
    f, v = freqs(x, (2,))
    checks(x, x.lw.psd.lisa_psd(f), v, (2,), 2.5e9, False, lambda f: fit(x, "karnesis21", f, 4.0))


@scenario(bounds="the response functions themselves: f in [1e-6,3] Hz, f* in [1e-3,1] Hz, values inside the table")
def responses(x):
    P = x.lw.psd
    f, fs = x.real("f", 1e-6, 3, None, (2,)), x.real("fstar", 1e-3, 1)
    for i in range(2):
        x.close("approximate", P.approximate_response_function(f, fs)[i], 0.3 / (1 + 0.6 * (f[i] / fs)**2))
        x.true("approximate positive", P.approximate_response_function(f, fs)[i] > 0)
    fR, RR = table(x)
    x.assume(f[0] < 0.999 * fR[-1] * fs)
    x.assume(f[1] < 0.999 * fR[-1] * fs)
    out = P.load_response_function(f, fs)
    for i in range(2):
        x.close("tabulated", out[i], spline(x, x.np.array([v * fs for v in fR]) if x.symbolic else fR * fs, RR, f[i]))
    x.assume(f[0] < 2)
    x.close("default f*", P.load_response_function(f)[0], spline(x, fR * 19.09e-3, RR, f[0]))


@scenario(bounds="frequencies exactly at and next to both band edges, any arm length and mission length (Karnesis or no confusion noise); " + R)
def edges(x):
    f = x.np.array([1e-7, 2.0, 9.9e-8, 2.01])
    L, t = x.real("L", 1e8, 1e11, u.m), x.real("t_obs", 0.1, 10, u.yr)
    ap = x.choice("approximate", [True, False])
    model = x.choice("model", [None, "karnesis21"])
    if not ap:
        clear_of_table_end(x, f, si(L, u.m))
    out = x.lw.psd.lisa_psd(f * u.Hz, L=L, t_obs=t, approximate_R=ap, confusion_noise=model)
    checks(x, out, f, (4,), si(L, u.m), ap, lambda v: fit(x, model, v, si(t, u.yr)))
