"""C32: distribution plots show exactly the selected data"""
import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si
from .sources import files, members, source
from .c31 import canvas, Canvas

R = "values over 3-9 decades; matplotlib and seaborn record what they are given"
ASSUMPTIONS = ["how matplotlib and seaborn turn the values they are given into a picture",
               "estimation of histogram bins (numpy.histogram_bin_edges) returns fixed edges"]


class Seaborn:
    def __init__(self, x):
        self.calls = []
        for name in ("kdeplot", "ecdfplot"):
            x.patch(x.lw.visualisation.sns, name, self.rec(name))

    def rec(self, name):
        def f(data=None, **k):
            self.calls.append((name, k))
            return k.get("ax")
        return f


def bins(x):
    if x.symbolic:
        x.stub_np("histogram_bin_edges", lambda a, bins=10, range=None, weights=None: np.array([0.0, 1.0, 2.0]))


def same_values(x, what, got, want, unit, log=False):
    """want: expected values of the variable, in this unit"""
    x.shape("number of " + what, got, (len(want),))
    for i, v in enumerate(want):
        g = got[i]
        if log:
            g = g.to_value(u.one) if isinstance(g, u.Quantity) else g
            x.close("logarithm of " + what, g, x.np.log10(v))
        elif isinstance(g, u.Quantity):
            x.close(what, si(g, unit.decompose()), v * unit.to(unit.decompose()))
        else:
            x.close(what, g, v)


def plain(w):
    return w.to_value(u.one) if isinstance(w, u.Quantity) else w


def weights_are(x, got, want):
    if want is None:
        x.require("no weights", got is None)
        return
    x.require("weights given", got is not None)
    x.shape("number of weights", got, (len(want),))
    for i, v in enumerate(want):
        x.close("weight of the same source", plain(got[i]), v)


def both(v):
    return tuple(v) if isinstance(v, (tuple, list)) else (v, v)


def shown(x, ax, sea, dist, X, Y, w, log, units, size=20):
    """exactly one plot of these values"""
    drawn = ax.of("hist") + ax.of("scatter")
    x.eq("number of plots", len(drawn) + len(sea.calls), 1)
    lx, ly = both(log)
    if dist == "hist":
        x.require("a histogram", len(ax.of("hist")) == 1)
        a, k = ax.of("hist")[0]
        same_values(x, "values", a[0] if a else k["x"], X, units[0], log=lx)
        weights_are(x, k.get("weights"), w)
        x.require("the axis is not logarithmic as well", not (lx and (k.get("log") or ax.of("set_xscale"))))
        return k
    if dist == "scatter":
        x.require("a scatter plot", len(ax.of("scatter")) == 1)
        a, k = ax.of("scatter")[0]
        a = list(a)
        same_values(x, "x values", a[0] if a else k["x"], X, units[0])
        same_values(x, "y values", a[1] if len(a) > 1 else k["y"], Y, units[1])
        for axis, on in (("set_xscale", lx), ("set_yscale", ly)):
            logged = [c for c, _ in ax.of(axis) if c[0] == "log"]
            other = [c for c, _ in ax.of(axis) if c[0] != "log" and c[0] != "linear"]
            x.require("%s: logarithmic only if asked" % axis, bool(logged) == bool(on) and not other, "%r" % ax.of(axis))
        s = k.get("s", a[2] if len(a) > 2 else None)
        if w is None:
            x.eq("size of the points", s, size)
        else:
            x.shape("one size per point", s, (len(w),))
            for i, v in enumerate(w):
                x.close("size of the point follows its own weight", s[i], size * v)
        return k
    x.require("a %s plot" % dist, sea.calls and sea.calls[0][0] == dist + "plot")
    k = sea.calls[0][1]
    x.require("on the axes", k.get("ax") is ax)
    if lx is not None:
        x.eq("log axes", both(k.get("log_scale"))[:1 if Y is None else 2], (lx, ly)[:1 if Y is None else 2])
    same_values(x, "values", k["x"], X, units[0])
    if Y is not None:
        same_values(x, "y values", k["y"], Y, units[1])
    else:
        x.require("one variable", k.get("y") is None)
    weights_are(x, k.get("weights"), w)
    return k


def axes(x, made, own):
    mine = Canvas()
    return mine, (dict(fig=mine, ax=mine) if own else {})


def limits(x, ax, xlim, ylim):
    for name, want in (("set_xlim", xlim), ("set_ylim", ylim)):
        got = ax.of(name)
        if want is None:
            x.require(name + " not asked", not got)
        else:
            x.eq(name, len(got), 1)
            a = got[0][0]
            v = a[0] if len(a) == 1 else a
            for i in range(2):
                x.close(name, plain(v[i]), want[i])


@scenario(bounds="1-3 and 8 values, with or without weights, histogram/kernel density/cumulative, linear or logarithmic; " + R)
def one_variable(x):
    made, sea = canvas(x), Seaborn(x)
    bins(x)
    n = x.choice("n", [1, 2, 3, 8])
    unit = x.choice("unit", [u.Msun, None])
    X = x.real("x", 1e-3, 1e6, unit, (n,))
    weighted = x.choice("weights", [False, True])
    w = x.real("w", 0, 10, None, (n,)) if weighted else None
    dist = x.choice("disttype", ["hist", "kde", "ecdf"])
    log = x.choice("log", [False, True])
    own, lim, extra = x.choice("axes", [(False, None, {}), (True, (1.0, 100.0), dict(label="L")), (False, None, dict(bins=[0.0, 1.0]) if dist == "hist" else {})])
    mine, k = axes(x, made, own)
    if own:
        k.update(xlim=lim, ylim=(0.1, 0.5), xlabel="X", ylabel="Y")
    given = [X] if w is None else [X, w]
    keep = x.snapshot(given)
    fig, ax = x.lw.visualisation.plot_1D_dist(X, weights=w, disttype=dist, log_scale=log, show=False, **k, **extra)
    x.require("axes", ax is (mine if own else made[0]) and fig is ax)
    got = shown(x, ax, sea, dist, list(X.to_value(unit) if unit else X), None, list(w) if weighted else None, log, (unit or u.one,))
    for name, v in extra.items():
        x.require("setting %s passed on" % name, got.get(name) is v or got.get(name) == v)
    if own:
        limits(x, ax, (0.0, 2.0) if dist == "hist" and log else lim, (0.1, 0.5))
        x.eq("labels", [ax.of("set_xlabel")[0][0][0], ax.of("set_ylabel")[0][0][0]], ["X", "Y"])
    x.unchanged("inputs", given, keep)


@scenario(bounds="1-3 and 8 pairs, with or without weights, scatter/kernel density, logarithmic axes in every combination; " + R)
def two_variables(x):
    made, sea = canvas(x), Seaborn(x)
    n = x.choice("n", [1, 2, 3, 8])
    units = x.choice("units", [(u.Msun, u.Hz), (u.one, u.one)])
    q = [None if v == u.one else v for v in units]
    X, Y = x.real("x", 1e-3, 1e6, q[0], (n,)), x.real("y", 1e-6, 1e3, q[1], (n,))
    weighted = x.choice("weights", [False, True])
    w = x.real("w", 0, 10, None, (n,)) if weighted else None
    dist = x.choice("disttype", ["scatter", "kde"])
    log = x.choice("log", [False, True, (True, False), (False, True), (False, False)])
    own = x.choice("axes", [False, True])
    size = x.choice("size", [None, 7])
    mine, k = axes(x, made, own)
    if size and dist == "scatter":
        k["scatter_s"] = size
    if own:
        k.update(xlim=(1.0, 2.0), ylim=(0.1, 0.5), xlabel="X", ylabel="Y", label="L")
    given = [X, Y] + ([w] if weighted else [])
    keep = x.snapshot(given)
    fig, ax = x.lw.visualisation.plot_2D_dist(X, Y, weights=w, disttype=dist, log_scale=log, show=False, **k)
    x.require("axes", ax is (mine if own else made[0]) and fig is ax)
    vals = [list(v.to_value(p) if p else v) for v, p in zip((X, Y), q)]
    got = shown(x, ax, sea, dist, vals[0], vals[1], list(w) if weighted else None, log, units, size or 20)
    if own:
        x.eq("label", got.get("label"), "L")
        limits(x, ax, (1.0, 2.0), (0.1, 0.5))
        x.eq("labels", [ax.of("set_xlabel")[0][0][0], ax.of("set_ylabel")[0][0][0]], ["X", "Y"])
    x.unchanged("inputs", given, keep)


NAMES = ["m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr"]
PAIRS = [("m_1", None), ("m_2", "m_1"), ("m_c", None), ("ecc", "m_2"), ("dist", "ecc"), ("f_orb", "a"), ("f_GW", "dist"), ("a", None), ("snr", None),
         ("ecc", None), ("m_1", "snr"), ("snr", "f_GW"), ("f_GW", None), ("dist", "f_orb"), ("a", "m_c"), ("f_orb", None), ("dist", None), ("m_2", None)]
WHICH = [(None, True), ((True, False, True), True), ((False, True, True), False), (None, False)]


def value(s, name):
    v = s.f_orb * 2 if name == "f_GW" else getattr(s, name)
    unit = getattr(v, "unit", u.one)
    return list(v.to_value(unit) if isinstance(v, u.Quantity) else v), unit


@scenario(bounds="3 sources, each variable and 8 pairs, masks, merged sources, log options, weights; " + R, weight=3)
def collection(x):
    made, sea = canvas(x), Seaborn(x)
    bins(x)
    files(x)
    n = 3
    kw = members(x, n)
    weighted = x.choice("weights", [False, True])
    w = x.real("w", 0, 5, None, (n,)) if weighted else None
    if weighted:
        kw["weights"] = w
    mu = x.choice("unit", [u.Msun, u.kg])
    s = source(x, dict(kw, m_1=kw["m_1"].to(mu)))
    s.snr = x.real("snr", 1e-3, 1e5, None, (n,))
    pairs = PAIRS if x.tier == "thorough" else PAIRS[:12]
    xs, ys = x.choice("variables", pairs)
    which, hide = x.choice("sources", WHICH)
    merged = x.choice("merged", [(False, False, False), (False, True, False), (True, False, True)])
    s.merged = np.array(merged)
    if ys is None:
        dist, log = x.choice("plot", [(None, False), (None, True), ("kde", True), ("ecdf", False)])
    else:
        dist, log = x.choice("plot", [(None, False), (None, (True, False)), (None, (False, True)), ("kde", True)])
    k = dict(show=False)
    if dist:
        k["disttype"] = dist
    if which is not None:
        k["which_sources"] = np.array(which)
    ids = [i for i in range(n) if (which is None or which[i]) and not (hide and merged[i])]
    before = [value(s, v) for v in NAMES]
    fig, ax = s.plot_source_variables(xs, ystr=ys, exclude_merged_sources=hide, log_scale=log, **k)
    vx, ux = before[NAMES.index(xs)]
    X = [vx[i] for i in ids]
    Y, uy = None, u.one
    if ys:
        vy, uy = before[NAMES.index(ys)]
        Y = [vy[i] for i in ids]
    kind = dist or ("hist" if ys is None else "scatter")
    shown(x, ax, sea, kind, X, Y, [w[i] for i in ids] if weighted else None, log, (ux, uy))
    label = ax.of("set_xlabel")[0][0][0]
    if xs not in ("ecc", "snr"):
        x.require("the label names the unit of the values", format(ux, "latex") in label, label)
    x.require("the label says when logarithms are shown", ("log" in label) == (kind == "hist" and bool(log)), label)
    if ys and ys not in ("ecc", "snr"):
        x.require("the label names the unit of the y values", format(uy, "latex") in ax.of("set_ylabel")[0][0][0])


@scenario(bounds="7 sources, some merged, some selected, with weights; " + R)
def many(x):
    made, sea = canvas(x), Seaborn(x)
    bins(x)
    files(x)
    n = 7
    kw = members(x, n)
    kw["weights"] = w = x.real("w", 0, 5, None, (n,))
    s = source(x, kw)
    s.snr = x.real("snr", 1e-3, 1e5, None, (n,))
    s.merged = merged = np.array([False, True, False, False, True, False, False])
    xs, ys = x.choice("variables", [("f_GW", None), ("m_1", "snr"), ("a", "ecc")])
    which, hide = x.choice("sources", [(None, True), ((True, True, False, True, True, False, True), True), ((False, True, True, True, True, False, True), False)])
    k = {} if which is None else dict(which_sources=np.array(which))
    ids = [i for i in range(n) if (which is None or which[i]) and not (hide and merged[i])]
    before = [value(s, v) for v in NAMES]
    own = x.choice("labels", [False, True])
    if own:
        k.update(xlabel="mine", ylabel="mine too")
    fig, ax = s.plot_source_variables(xs, ystr=ys, exclude_merged_sources=hide, show=False, **k)
    if own:
        x.eq("labels asked for", [ax.of("set_xlabel")[0][0][0], ax.of("set_ylabel")[0][0][0]], ["mine", "mine too"])
    vx, ux = before[NAMES.index(xs)]
    vy, uy = before[NAMES.index(ys)] if ys else (None, u.one)
    shown(x, ax, sea, "scatter" if ys else "hist", [vx[i] for i in ids], [vy[i] for i in ids] if ys else None, [w[i] for i in ids], False, (ux, uy))


@scenario(bounds="2 sources; " + R)
def rejected(x):
    made, sea = canvas(x), Seaborn(x)
    bins(x)
    files(x)
    s = source(x, members(x, 2))
    bad = x.choice("variables", [("mass", None), ("m_1", "mass"), ("snr", None), ("m_1", "snr"), ("h_0", "m_1"), ("snr", "m_1")])
    x.raises("unknown or not yet computed", ValueError, s.plot_source_variables, bad[0], ystr=bad[1], show=False)
    x.require("nothing is drawn", not made and not sea.calls)
