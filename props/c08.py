"""C08 evol_circ."""
from engine.core import scenario, u
from props.common import *

R = "m in [1e-3,1e6] Msun, a in [1e-6,1e3] AU, times in [0, 2] merger times"
ASSUMPTIONS = ["times closer than 1e-8 (relative) to the merger itself are outside (rounding decides there)"]


def setup(x, nx, ny, form):
    m1, m2 = x.real("m1", 1e-3, 1e6, u.Msun, (nx,)), x.real("m2", 1e-3, 1e6, u.Msun, (nx,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    kw = {}
    if "a" in form:
        a = x.real("a", 1e-6, 1e3, u.AU, (nx,))
        a0 = si(a, u.m)
        kw["a_i"] = a
    else:
        f = x.real("f", 1e-9, 10, u.Hz, (nx,))
        a0 = kepler_a(si(f, u.Hz), k1, k2)
        kw["f_orb_i"] = f
    be = beta(k1, k2)
    if "m" in form:
        kw.update(m_1=m1, m_2=m2)
    if "B" in form:
        be = x.real("beta", 1e12, 1e36, None, (nx,))
        kw["beta"] = be * u.m**4 / u.s
    if "b" in form:
        # an explicitly supplied beta wins over the masses
        bx = x.real("beta_ratio", 0.1, 10, None, (nx,))
        be = be * bx
        kw["beta"] = be * u.m**4 / u.s
    return kw, k1, k2, a0, be


def expect(x, a0, be, t):
    """a(t)^4 and whether it is merged"""
    d = a0**4 - 4 * be * t
    x.assume(abs(d) > 1e-8 * a0**4)
    return d, bool(d <= 0)


def check(x, outs, vars_, kw, k1, k2, a0, be, T, nx, ny, single, tag=""):
    outs = [outs] if len(vars_) == 1 else outs
    D = [[expect(x, a0[i], be[i], T[i][j]) for j in range(ny)] for i in range(nx)]
    x.require("number of outputs", len(outs) == len(vars_), "%d" % len(outs))
    for v, o in zip(vars_, outs):
        x.shape("shape of %s" % v, o, (ny,) if single else (nx, ny))
        for i in range(nx):
            for j in range(ny):
                y = o[j] if single else o[i, j]
                d, merged = D[i][j]
                if v == "timesteps":
                    x.close("timesteps" + tag, y.to(u.s), T[i][j] * u.s)
                elif v == "a":
                    if merged:
                        x.close("merged separation" + tag, y, 0.0 * u.m)
                    else:
                        x.close("separation" + tag, y.to(u.m)**4, d * u.m**4, scale=a0[i]**4 * u.m**4)
                        x.true("separation not negative" + tag, y.value >= 0)
                else:
                    want = 100.0 if merged else pw(G * (k1[i] + k2[i]), 1, 2) / (2 * PI) / pw(d, 3, 8)
                    x.close(v + tag, y.to(u.Hz), want * (2 if v == "f_GW" else 1) * u.Hz)


ORDERS = [["timesteps", "a", "f_orb", "f_GW"], ["f_GW", "a"], ["a", "timesteps", "f_orb"], ["f_orb", "f_GW"]]


@scenario(bounds="2 sources x 2 own times (before/after merger in any combination), outputs in several orders; " + R, weight=4)
def per_source_times(x):
    E = x.lw.evol
    nx, ny = 2, 2
    form, vars_ = x.choice("inputs, outputs", [("m a", ORDERS[0]), ("m f", ORDERS[1]), ("b m a", ORDERS[2]), ("b m a", ORDERS[3])])
    kw, k1, k2, a0, be = setup(x, nx, ny, form)
    s = x.real("s", 0, 2, None, (nx, ny))
    tm = a0**4 / (4 * be)
    T = [[s[i, j] * tm[i] for j in range(ny)] for i in range(nx)]
    t = x.np.array(T) * u.s
    out = E.evol_circ(timesteps=t.to(u.yr), output_vars=vars_, **kw)
    check(x, out, vars_, kw, k1, k2, a0, be, T, nx, ny, False)


@scenario(bounds="1-2 sources, one shared grid of 2 times, free beta, frequency output; " + R, weight=3)
def shared_times(x):
    E = x.lw.evol
    nx = x.choice("sources", [1, 2])
    kw, k1, k2, a0, be = setup(x, nx, 3, "B m a")
    s = x.real("s", 0, 2, None, (2,))
    T = [s[j] * a0[0]**4 / (4 * be[0]) for j in range(2)]
    vars_ = x.choice("outputs", ["f_orb", "a", "f_GW", "timesteps"])
    out = E.evol_circ(timesteps=x.np.array(T) * u.s, output_vars=vars_, **kw)
    check(x, out, [vars_], kw, k1, k2, a0, be, [T] * nx, nx, 2, False)


@scenario(bounds="one source at a time shortly before or after its merger (1e-8 to 1e-2 of the merger time away); " + R, weight=1)
def around_the_merger(x):
    E = x.lw.evol
    kw, k1, k2, a0, be = setup(x, 1, 2, x.choice("inputs", ["m a", "m f", "b m a"]))
    gap = x.real("gap", 1.1e-8, 1e-2)
    s = 1 - gap if x.choice("side", ["before", "after"]) == "before" else 1 + gap
    T = [[0.0 * a0[0]**4 / be[0], s * a0[0]**4 / (4 * be[0])]]
    vars_ = x.choice("outputs", [["a", "f_orb"], ["f_GW", "timesteps"]])
    out = E.evol_circ(timesteps=x.np.array(T) * u.s, output_vars=vars_, **kw)
    check(x, out, vars_, kw, k1, k2, a0, be, T, 1, 2, False)


@scenario(bounds="one source given as scalars, evolved for t_evol in 2-4 steps; then evolved in two stages; " + R, weight=2)
def single(x):
    E = x.lw.evol
    form = x.choice("inputs", ["m a", "m f", "b a"])
    kw, k1, k2, a0, be = setup(x, 1, 1, form)
    kw = {k: v[0] for k, v in kw.items()}
    s = x.real("s", 0, 2)
    te = s * a0[0]**4 / (4 * be[0])
    n = x.choice("n_step", [2, 4])
    vars_ = x.choice("outputs", [["a", "timesteps"], ["timesteps", "f_GW", "a"]] if "m" in form else [["a", "timesteps"]])
    out = E.evol_circ(t_evol=te * u.s, n_step=n, output_vars=vars_, **kw)
    T = [te * j / (n - 1) for j in range(n)]
    check(x, out, vars_, kw, k1, k2, a0, be, [T], 1, n, True)


@scenario(bounds="2 sources evolved by t1 and then t2, against t1 + t2; " + R, weight=2)
def two_stages(x):
    E = x.lw.evol
    kw, k1, k2, a0, be = setup(x, 2, 2, "m a")
    s1, s2 = x.real("s1", 0, 0.9, None, (2,)), x.real("s2", 0, 0.9, None, (2,))
    tm = a0**4 / (4 * be)
    first = E.evol_circ(t_evol=s1 * tm * u.s, n_step=2, output_vars="a", **kw)[:, -1]
    x.assume(abs(1 - s1 - s2) > 1e-4)
    k = dict(kw, a_i=first)
    second = E.evol_circ(t_evol=s2 * tm * u.s, n_step=2, output_vars="a", **k)[:, -1]
    both = E.evol_circ(t_evol=(s1 + s2) * tm * u.s, n_step=2, output_vars="a", **kw)[:, -1]
    x.close("two stages", second**4, both**4, scale=(a0 * u.m)**4)


@scenario(bounds="missing masses with frequency outputs, missing inputs", weight=1)
def rejected(x):
    E = x.lw.evol
    kw, k1, k2, a0, be = setup(x, 2, 1, "b a")
    v = x.choice("output", ["f_orb", "f_GW", ["a", "f_orb"], ["timesteps", "f_GW"]])
    x.raises("frequency without masses", ValueError, E.evol_circ, t_evol=1 * u.yr, output_vars=v, **kw)
    m = x.real("m", 0.1, 10, u.Msun, (2,))
    x.raises("one mass only", ValueError, E.evol_circ, t_evol=1 * u.yr, output_vars=v, m_1=m, **kw)
    x.raises("no mass at all", ValueError, E.evol_circ, t_evol=1 * u.yr, a_i=kw["a_i"])
    x.raises("no separation", ValueError, E.evol_circ, t_evol=1 * u.yr, m_1=m, m_2=m)
    x.raises("f_orb and beta only", ValueError, E.evol_circ, t_evol=1 * u.yr, beta=kw["beta"], f_orb_i=1e-3 * u.Hz, output_vars="a")


@scenario(bounds="6 sources x 3 times each, every other source merging half way; one source x 12 times; " + R, weight=2)
def many(x):
    E = x.lw.evol
    nx, ny = x.choice("sources, times", [(6, 3), (1, 12)])
    kw, k1, k2, a0, be = setup(x, nx, ny, "m f")
    tm = a0**4 / (4 * be)
    s = [[x.real("s%s%d%d" % ("m" if i % 2 and j else "u", i, j), *((1.01, 2) if i % 2 and j else (0, 0.99))) for j in range(ny)] for i in range(nx)]
    if nx == 1:
        s = [[x.real("s0%d" % j, *((1.01, 2) if j > 7 else (0, 0.99))) for j in range(ny)]]
    T = [[s[i][j] * tm[i] for j in range(ny)] for i in range(nx)]
    vars_ = ["f_GW", "a", "timesteps"]
    out = E.evol_circ(timesteps=(x.np.array(T) * u.s).to(u.yr), output_vars=vars_, **kw)
    check(x, out, vars_, kw, k1, k2, a0, be, T, nx, ny, False)
