"""C09 evol_ecc: one Peters trajectory per source, merger avoidance, outputs of the same instant."""
from engine.core import scenario, u
from props.common import *
from props.c10 import stub_t_merge

R = "m in [1e-2,1e4] Msun, a in [1e-4,10] AU, e in [0.01,0.95], times up to 0.9 (1-e^2)^3.5 circular merger times"
ASSUMPTIONS = ["scipy.odeint is the flow of the autonomous equation it is handed (value = function of equation, start, elapsed time)",
               "the eccentricity stays positive until merger", "merger times used by merger avoidance are free values (their formula is C11)",
               "times closer than 1e-6 (relative) to the cut-off are outside", "process pools return results in task order"]


def rhs(be, c0):
    return lambda e: -19 / 12 * be / c0**4 * pw(e, -29, 19) * pw(1 - e**2, 3, 2) * pw(1 + 121 / 304 * e**2, -1181, 2299)


def setup(x, nx, form, emax=0.95):
    m1, m2 = x.real("m1", 1e-2, 1e4, u.Msun, (nx,)), x.real("m2", 1e-2, 1e4, u.Msun, (nx,))
    k1, k2 = si(m1, u.kg), si(m2, u.kg)
    e = x.real("e", 0.01, emax, None, (nx,))
    kw = dict(ecc_i=e)
    if "a" in form:
        kw["a_i"] = x.real("a", 1e-4, 10, u.AU, (nx,))
        a0 = si(kw["a_i"], u.m)
    else:
        kw["f_orb_i"] = x.real("f", 1e-6, 1e-2, u.Hz, (nx,))
        a0 = kepler_a(si(kw["f_orb_i"], u.Hz), k1, k2)
    be = beta(k1, k2)
    if "m" in form:
        kw.update(m_1=m1, m_2=m2)
    if "B" in form:
        be = x.real("beta", 1e14, 1e30, None, (nx,))
        kw["beta"] = be * u.m**4 / u.s
    return kw, k1, k2, a0, be, e


def tlow(a0, be, e):
    """a lower bound of the merger time, s"""
    return 0.9 * a0**4 / (4 * be) * pw(1 - e**2, 7, 2)


def tlow6(a0, be, e):
    """the same for e <= 0.6, without the eccentricity (simpler conditions for the solver)"""
    return 0.18 * a0**4 / (4 * be)


def kept(x, T, tm, tb):
    """times after merger avoidance: source i frozen at its last time more than tb before its own merger"""
    out = []
    for i, row in enumerate(T):
        new, last = [], row[0]
        for j, t in enumerate(row):
            if j > 0:
                x.assume(abs(tm[i] - tb - t) > 1e-6 * (tm[i] + tb + t))
                if t < tm[i] - tb:
                    last = t
            new.append(last)
        out.append(new)
    return out


def check(x, outs, vars_, k1, k2, a0, be, e, K, single=False, tag=""):
    """K: times in s after merger avoidance"""
    nx, ny = len(K), len(K[0])
    outs = [outs] if isinstance(vars_, str) else outs
    vars_ = [vars_] if isinstance(vars_, str) else vars_
    outs = [outs] if len(vars_) == 1 and x.np.ndim(outs) < 3 and not isinstance(outs, list) else outs
    x.require("number of outputs", len(outs) == len(vars_), "%d" % len(outs))
    for v, o in zip(vars_, outs):
        x.shape("shape of %s" % v, o, (ny,) if single else (nx, ny))
    for i in range(nx):
        c0 = a0[i] * c0_over_a(e[i])
        for j in range(ny):
            ee = x.flow(rhs(be[i], c0), e[i], K[i][j] - K[i][0])
            a = c0 / c0_over_a(ee)
            for v, o in zip(vars_, outs):
                y = o[j] if single else o[i, j]
                if v == "timesteps":
                    x.close("timesteps" + tag, y.to(u.s), K[i][j] * u.s)
                elif v == "ecc":
                    x.close("eccentricity" + tag, y, ee, rtol=1e-4)
                elif v == "a":
                    x.close("separation" + tag, y.to(u.m), a * u.m, rtol=1e-4)
                else:
                    x.close(v + tag, y.to(u.Hz), kepler_f(a, k1[i], k2[i]) * (2 if v == "f_GW" else 1) * u.Hz, rtol=1e-4)


def grid(x, nx, ny, a0, be, e, tlow=tlow):
    """increasing times, each source its own"""
    s = x.real("s", 0.001, 1.0 / max(1, ny - 1), None, (nx, ny - 1))
    out = []
    for i in range(nx):
        row = [s[i, 0] * 0]
        for j in range(ny - 1):
            row.append(row[-1] + s[i, j])
        out.append([r * tlow(a0[i], be[i], e[i]) for r in row])
    return out


def serial(x):
    """process pools give results in task order (a child process cannot be forked from the replay worker)"""
    if not x.symbolic:
        from engine.pools import SerialPool
        for name in ("MultiPool", "Pool", "SerialPool"):
            if hasattr(x.lw.evol, name):
                x.patch(x.lw.evol, name, SerialPool)


CASES = [("m a", ["timesteps", "ecc", "a", "f_orb", "f_GW"]), ("m f", ["f_GW", "a", "ecc"]), ("B m a", ["f_orb", "timesteps", "f_GW"]),
         ("B a", ["a", "timesteps", "ecc"])]


@scenario(bounds="2 sources, 3 own times each, no merger avoidance, outputs in several orders; " + R, weight=3)
def free_run(x):
    E = x.lw.evol
    form, vars_ = x.choice("inputs, outputs", CASES + [("m a", ["ecc", "f_orb"])])
    kw, k1, k2, a0, be, e = setup(x, 2, form)
    T = grid(x, 2, 3, a0, be, e)
    out = E.evol_ecc(timesteps=(x.np.array(T) * u.s).to(u.yr), output_vars=vars_, avoid_merger=False, **kw)
    check(x, out, vars_, k1, k2, a0, be, e, T)


@scenario(bounds="1-2 sources, 3 own times, merger times and margin given, e <= 0.6; " + R, weight=4)
def avoid_given(x):
    E = x.lw.evol
    form, vars_, nx = x.choice("inputs, outputs, sources", [("B a", ["timesteps", "ecc"], 2), ("B m a", ["f_GW", "timesteps"], 1)])
    kw, k1, k2, a0, be, e = setup(x, nx, form, 0.6)
    T = grid(x, nx, 3, a0, be, e, tlow6)
    q = x.real("q", 0.1, 10, None, (nx,))
    tm = [q[i] * tlow6(a0[i], be[i], e[i]) for i in range(nx)]
    w = x.real("w", 0.001, 2)
    tb = w * tlow6(a0[0], be[0], e[0])
    out = E.evol_ecc(timesteps=(x.np.array(T) * u.s).to(u.yr), output_vars=vars_, t_merge=(x.np.array(tm) * u.s).to(u.Gyr),
                     t_before=(tb * u.s).to(u.Myr), **kw)
    check(x, out, vars_, k1, k2, a0, be, e, kept(x, T, tm, tb))


@scenario(bounds="1-2 sources, one shared grid of 4 times, default margin of 1 Myr or given, merger times found by the code, e <= 0.6; " + R, weight=4)
def avoid_computed(x):
    E = x.lw.evol
    nx = x.choice("sources", [1, 2])
    kw, k1, k2, a0, be, e = setup(x, nx, "B a", 0.6)
    stub_t_merge(x, kw["a_i"], kw["beta"], e, nx)
    T = grid(x, 1, 3, a0, be, e, tlow6) * nx
    for i in range(1, nx):
        x.assume(T[0][-1] < tlow6(a0[i], be[i], e[i]))
    tm = [si(t, u.s) for t in x.tm]
    if x.choice("margin", ["default", "given"]) == "default":
        tb, b = si(1 * u.Myr, u.s), {}
    else:
        t = x.real("t_before", 1e-2, 1e13, u.yr)
        tb, b = si(t, u.s), dict(t_before=t)
    exact = x.choice("exact", [False, True])
    out = E.evol_ecc(timesteps=(x.np.array(T[0]) * u.s).to(u.yr), output_vars=["ecc", "timesteps"], exact_t_merge=exact, **b, **kw)
    check(x, out, ["ecc", "timesteps"], k1, k2, a0, be, e, kept(x, T, tm, tb))
    x.require("exactness of the merger time passed on", all(c == exact for c in x.tm_calls) and x.tm_calls, repr(x.tm_calls))


@scenario(bounds="t_evol per source or shared, 2-4 steps, 1-2 sources; " + R, weight=3)
def steps(x):
    E = x.lw.evol
    nx, shared, n = x.choice("sources, shared, steps", [(1, True, 4), (2, True, 3), (2, False, 4), (2, False, 2)])
    kw, k1, k2, a0, be, e = setup(x, nx, "B a")
    s = x.real("s", 0.01, 1, None, (nx,))
    te = [s[i] * tlow(a0[i], be[i], e[i]) for i in range(nx)]
    if shared:
        te = [te[0]] * nx
        for i in range(1, nx):
            x.assume(te[0] < tlow(a0[i], be[i], e[i]))
    out = E.evol_ecc(t_evol=(te[0] if shared else x.np.array(te)) * u.s, n_step=n, output_vars=["timesteps", "a"], avoid_merger=False, **kw)
    T = [[te[i] * j / (n - 1) for j in range(n)] for i in range(nx)]
    check(x, out, ["timesteps", "a"], k1, k2, a0, be, e, T)


@scenario(bounds="one source given as scalars, each single output name; " + R, weight=3)
def single(x):
    E = x.lw.evol
    kw, k1, k2, a0, be, e = setup(x, 1, "m a")
    kw = {k: v[0] for k, v in kw.items()}
    T = grid(x, 1, 3, a0, be, e)
    v = x.choice("output", ["ecc", "a", "f_orb", "f_GW", "timesteps", ["f_orb"], ["ecc", "f_orb"], ["f_GW", "timesteps", "a"]])
    out = E.evol_ecc(timesteps=x.np.array(T[0]) * u.s, output_vars=v, avoid_merger=False, **kw)
    check(x, out, v, k1, k2, a0, be, e, T, single=True)


@scenario(bounds="one source given as scalars with merger avoidance, its merger time given (scalar) or found, e <= 0.6; " + R, weight=3)
def single_avoid(x):
    E = x.lw.evol
    kw, k1, k2, a0, be, e = setup(x, 1, "B a", 0.6)
    T = grid(x, 1, 3, a0, be, e, tlow6)
    w = x.real("w", 0.001, 2)
    tb = w * tlow6(a0[0], be[0], e[0])
    if x.choice("merger time", ["given", "found"]) == "given":
        tm = x.real("q", 0.1, 10) * tlow6(a0[0], be[0], e[0])
        k = dict(t_merge=tm * u.s)
    else:
        stub_t_merge(x, kw["a_i"], kw["beta"], e, 1)
        tm, k = si(x.tm[0], u.s), {}
    kw = {n: v[0] for n, v in kw.items()}
    out = E.evol_ecc(timesteps=x.np.array(T[0]) * u.s, output_vars=["ecc", "a"], t_before=tb * u.s, **k, **kw)
    check(x, out, ["ecc", "a"], k1, k2, a0, be, e, kept(x, T, [tm], tb), single=True)


@scenario(bounds="2-3 sources over 2 or 3 processes, against the same references; " + R, weight=3)
def processes(x):
    E = x.lw.evol
    serial(x)
    nx = x.choice("sources", [2, 3])
    kw, k1, k2, a0, be, e = setup(x, nx, "B a")
    T = grid(x, nx, 3, a0, be, e)
    out = E.evol_ecc(timesteps=x.np.array(T) * u.s, output_vars=["ecc", "timesteps"], avoid_merger=False, n_proc=x.choice("n_proc", [2, 3]), **kw)
    check(x, out, ["ecc", "timesteps"], k1, k2, a0, be, e, T)


@scenario(bounds="the derivative and its normalisation: e in [0.001,0.99], beta and c_0 free")
def derivative(x):
    E = x.lw.evol
    e, be, c0 = x.real("e", 0.001, 0.99), x.real("beta", 1e14, 1e30), x.real("c0", 1e6, 1e13)
    x.close("Peters 5.13", E.de_dt(e, 0.0, be, c0), rhs(be, c0)(e))
    s, t = x.real("s", 0.1, 1), x.real("t0", 0, 1e15)
    x.close("autonomous", E.de_dt(e, t, be, c0), rhs(be, c0)(e))


@scenario(bounds="frequency outputs without both masses")
def rejected(x):
    E = x.lw.evol
    kw, k1, k2, a0, be, e = setup(x, 2, "B a")
    m = x.real("m", 0.1, 10, u.Msun, (2,))
    v = x.choice("output", ["f_orb", "f_GW", ["ecc", "f_orb"], ["a", "timesteps", "f_GW"]])
    x.raises("no masses", ValueError, E.evol_ecc, t_evol=1 * u.yr, output_vars=v, **kw)
    x.raises("first mass only", ValueError, E.evol_ecc, t_evol=1 * u.yr, output_vars=v, m_1=m, **kw)
    x.raises("second mass only", ValueError, E.evol_ecc, t_evol=1 * u.yr, output_vars=v, m_2=m, **kw)


def run_many(x, nx, ny, proc):
    serial(x)
    kw, k1, k2, a0, be, e = setup(x, nx, "B a")
    T = grid(x, nx, ny, a0, be, e)
    vars_ = ["ecc", "timesteps", "a"]
    out = x.lw.evol.evol_ecc(timesteps=x.np.array(T) * u.s, output_vars=vars_, avoid_merger=False, n_proc=proc, **kw)
    check(x, out, vars_, k1, k2, a0, be, e, T)


@scenario(bounds="5 sources x 2 times, alone or over 3 processes; " + R)
def many(x):
    run_many(x, 5, 2, x.choice("processes", [1, 3]))


@scenario(bounds="one source x 8 times; " + R)
def long(x):
    run_many(x, 1, 8, 1)
