"""C31: plotted sources sit at their SNR above the sensitivity curve"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si, psd_stub, sn, DEFAULTS
from .sources import files, members, source
from .c24 import stub_stationarity, is_stat, trio

R = "frequencies 1e-5-1 Hz, SNRs 1e-3-1e5, an arbitrary sensitivity curve (C14-C18); matplotlib's axes record what is drawn"


class Canvas:
    """figure and axes that record what is drawn"""

    def __init__(self):
        self.calls = []

    def get_ylim(self):
        return (1e-25, 1e-15)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def rec(*a, **k):
            if name == "hist" and k.get("weights") is not None and isinstance(k.get("bins"), str):
                raise TypeError("Automated estimation of the number of bins is not supported for weighted data")
            self.calls.append((name, a, k))
        return rec

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


def canvas(x):
    """plt.subplots gives a recording canvas"""
    made = []

    def subplots(*a, **k):
        c = Canvas()
        made.append(c)
        return c, c
    x.patch(x.lw.visualisation.plt, "subplots", subplots)
    x.patch(x.lw.visualisation.plt, "show", lambda *a, **k: None)
    return made


def drawn(x, ax, snr, f, w, h_c, size=20, expected=None):
    """the scatter call shows exactly these sources (in order)"""
    got = ax.of("scatter")
    if not expected:
        x.require("nothing is drawn", not got or all(np.size(a[0]) == 0 for a, _ in got))
        return
    x.eq("one scatter plot", len(got), 1)
    a, k = got[0]
    X = a[0] if len(a) > 0 else k["x"]
    Y = a[1] if len(a) > 1 else k["y"]
    x.shape("number of points", X, (len(expected),))
    x.shape("number of heights", Y, (len(expected),))
    for p, i in enumerate(expected):
        fi = f[i]
        x.close("frequency of the point", si(X[p], u.Hz), fi)
        asd2 = (snr[i] * snr[i]) * sn(x, fi)
        if h_c:
            y = Y[p].to_value(u.one) if isinstance(Y, u.Quantity) else Y[p]
            x.close("height of the point is its SNR above the curve", y * y, asd2 * fi)
        else:
            y = Y[p].to_value(u.Hz**-0.5)
            x.close("height of the point is its SNR above the curve", y * y, asd2)
    s = k.get("s", a[2] if len(a) > 2 else None)
    if w is None:
        x.eq("size of the points", s, size)
    else:
        x.shape("one size per point", s, (len(expected),))
        for p, i in enumerate(expected):
            x.close("size of the point is its own weight", s[p], size * w[i])


SETTINGS = [{}, dict(instrument="TianQin", approximate_R=True, t_obs=5 * u.yr), dict(confusion_noise=None, L=1e9 * u.m),
            dict(instrument="custom", custom_psd=abs)]


def asked(x, calls, given):
    want = dict(DEFAULTS, **given)
    for c in calls:
        for k, v in want.items():
            if k == "t_obs" and isinstance(v, str):
                continue
            g = c[k]
            x.require("setting %s" % k, g is v or (isinstance(g, u.Quantity) == isinstance(v, u.Quantity) and bool(g == v)), "%r instead of %r" % (g, v))


@scenario(bounds="1-2 sources around the cutoff, with or without weights, on a new or the caller's axes; " + R, weight=3)
def points(x):
    made = canvas(x)
    calls = psd_stub(x)
    n = x.choice("n", [1, 2]) if x.tier == "quick" else x.choice("n", [1, 2, 3])
    f = x.real("f", 1e-5, 1, u.Hz, (n,))
    snr = x.real("snr", 1e-3, 1e5, None, (n,))
    given, h_c, weighted, own = x.choice("settings", [(SETTINGS[0], False, False, False), (SETTINGS[1], True, True, False), (SETTINGS[2], False, True, True),
                                                      (SETTINGS[3], True, False, True), (SETTINGS[0], None, True, False)])
    cut = x.choice("cutoff", [None, "given"])
    c = x.real("cutoff", 0, 100) if cut else 0
    w = x.real("w", 0, 5, None, (n,)) if weighted else None
    unit = x.choice("unit", [u.Hz, u.mHz])
    k = dict(given)
    if cut:
        k["snr_cutoff"] = c
    if weighted:
        k["weights"] = w
    if h_c is not None:
        k["sc_vis_settings"] = {"y_quantity": "h_c"} if h_c else {"y_quantity": "ASD"}
    mine = Canvas()
    if own:
        k.update(fig=mine, ax=mine)
    keep = [i for i in range(n) if bool(snr[i] > c)]
    if x.symbolic:
        # (the curve itself is drawn at a thousand fixed frequencies)
        x.patch(x.lw.visualisation, "plot_sensitivity_curve", drawn_curve(x, made, given, bool(h_c)))
    fig, ax = x.lw.visualisation.plot_sources_on_sc(f.to(unit), snr, show=False, **k)
    x.require("axes", ax is (mine if own else made[0]) and fig is ax)
    asked(x, calls, given)
    drawn(x, ax, snr, [si(v, u.Hz) for v in f], w, bool(h_c), expected=keep)


def drawn_curve(x, made, given, h_c):
    def plot_sensitivity_curve(frequency_range=None, y_quantity="ASD", fig=None, ax=None, show=True, **k):
        x.eq("convention of the curve", y_quantity, "h_c" if h_c else "ASD")
        for name, v in dict(DEFAULTS, **given).items():
            if name == "t_obs" and isinstance(v, str):
                continue
            x.require("setting %s of the curve" % name, k[name] is v or k[name] == v)
        return x.lw.visualisation.plt.subplots()
    return plot_sensitivity_curve


@scenario(bounds="a curve at 1-2 arbitrary frequencies, both conventions, on a new or the caller's axes; " + R)
def curve(x):
    made = canvas(x)
    calls = psd_stub(x)
    n = x.choice("n", [1, 2])
    f = x.real("f", 1e-5, 1, u.Hz, (n,))
    given, y, own, fill = x.choice("settings", [(SETTINGS[0], None, False, True), (SETTINGS[1], "h_c", True, False), (SETTINGS[2], "ASD", False, True),
                                                (SETTINGS[3], "h_c", False, True), (SETTINGS[0], "power", False, True)])
    k = dict(given, fill=fill)
    if y:
        k["y_quantity"] = y
    mine = Canvas()
    if own:
        k.update(fig=mine, ax=mine)
    P = x.lw.visualisation.plot_sensitivity_curve
    if y == "power":
        x.raises("unknown convention", ValueError, P, f, show=False, **k)
        return
    fig, ax = P(f, show=False, **k)
    x.require("axes", ax is (mine if own else made[0]) and fig is ax)
    asked(x, calls, given)
    line = ax.of("loglog") + ax.of("plot")
    x.eq("one curve", len(line), 1)
    a, _ = line[0]
    x.shape("points of the curve", a[1], (n,))
    for i in range(n):
        fi = si(f[i], u.Hz)
        x.close("frequency", si(a[0][i], u.Hz), fi)
        if y == "h_c":
            v = a[1][i].to_value(u.one)
            x.close("characteristic strain of the noise", v * v, fi * sn(x, fi))
        else:
            v = a[1][i].to_value(u.Hz**-0.5)
            x.close("amplitude spectral density", v * v, sn(x, fi))
    x.eq("filled", len(ax.of("fill_between")), int(fill))


@scenario(bounds="2 sources, stationary or evolving, merged or not, around the cutoff; " + R, weight=3)
def collection(x):
    body(x, 2, x.choice("merged", [(False, False), (True, False), (False, True)]))


LOUD = (True, True, False, True, True, True, True)


@scenario(bounds="7 sources, two of them merged, one below the cutoff, each stationary or evolving; " + R)
def many(x):
    body(x, 7, x.choice("merged", [(False, True, False, False, False, True, False), (True, False, False, False, True, False, False)]), True)


def body(x, n, merged, fixed=False):
    files(x)
    stub_stationarity(x)
    made = canvas(x)
    calls = psd_stub(x)
    warned = []
    x.patch(x.lw.source, "logger", Log(warned))
    harm = (2, 5, 3, 2, 7, 4, 6)[:n]
    kw = trio(x, n)
    if fixed:
        kw["ecc"] = np.array([0.0, 0.3, 0.5, 0.0, 0.4, 0.0, 0.2])
    weighted, h_c, given = x.choice("settings", [(False, False, {}), (True, True, dict(instrument="TianQin", t_obs=3 * u.yr)), (True, False, dict(confusion_noise=None))])
    if weighted:
        kw["weights"] = x.real("w", 0, 5, None, (n,))
    s = source(x, kw, sc_params=dict(given))
    s.merged = np.array(merged)
    if fixed:
        s.snr = x.np.array([x.real("snr%d" % i, *((7.1, 1e5) if LOUD[i] else (0, 6.9))) for i in range(n)])
    else:
        s.snr = x.real("snr", 0, 1e5, None, (n,))
    s.max_snr_harmonic = np.array(harm)
    cut = 7.0 if fixed else x.choice("cutoff", [None, 7.0])
    mine = Canvas()
    k = {} if cut is None else dict(snr_cutoff=cut)
    if h_c:
        k["sc_vis_settings"] = {"y_quantity": "h_c"}
    own = False if fixed else x.choice("axes", [False, True])
    if own:
        k.update(fig=mine, ax=mine)
    if x.symbolic:
        x.patch(x.lw.visualisation, "plot_sensitivity_curve", drawn_curve(x, made, given, h_c))
    from .c24 import AUTO
    t = given.get("t_obs", AUTO[given.get("instrument", "LISA")])
    det = [i for i in range(n) if not merged[i] and bool(s.snr[i] > (cut or 0))]
    stat = [i for i in det if is_stat(x, kw, i, t, 1e-2)]
    evolving = [i for i in det if i not in stat]
    fig, ax = s.plot_sources_on_sc(show=False, **k)
    asked(x, calls, given)
    if stat:
        x.require("axes", ax is (mine if own else made[0]))
    where = ax if isinstance(ax, Canvas) else mine
    f = [si(s.f_orb[i], u.Hz) * harm[i] for i in range(n)]
    drawn(x, where, s.snr, f, s.weights, h_c, expected=stat)
    for name, ids in (("circular", [i for i in evolving if bool(kw["ecc"][i] <= s.ecc_tol)]),
                      ("eccentric", [i for i in evolving if bool(kw["ecc"][i] > s.ecc_tol)])):
        said = [m for m in warned if name in m]
        x.eq("warned about %s evolving sources left out" % name, len(said), int(bool(ids)))
        if ids and said:
            x.require("number of %s evolving sources" % name, said[0].startswith("%d " % len(ids)), said[0])


class Log:
    def __init__(self, out):
        self.out = out

    def warning(self, m, *a):
        self.out.append(str(m) % a if a else str(m))

    def __getattr__(self, n):
        return lambda *a, **k: None


@scenario(bounds="a collection without an SNR; " + R)
def not_analysed(x):
    files(x)
    made = canvas(x)
    s = source(x, members(x, 1))
    fig, ax = s.plot_sources_on_sc(show=False)
    x.require("nothing to plot", fig is None and ax is None and not made)
