"""C10 create_timesteps_array and the time grids seen through evol_circ / evol_ecc."""
from engine.core import scenario, u
from props.common import *

R = "t_evol in [0,1e12] yr, explicit times in [0,1e12] yr, a in [1e-4,1e2] AU, beta in [1e12,1e36] m^4/s"
ASSUMPTIONS = ["default evolution times: the merger time of each source is a free value (its formula is C11)"]


def binaries(x, n):
    a = x.real("a", 1e-4, 1e2, u.AU, (n,))
    b = x.real("beta", 1e12, 1e36, u.m**4 / u.s, (n,))
    e = x.real("e", 0, 0.99, None, (n,))
    return a, b, e


@scenario(bounds="1-3 sources, 2-4 steps, one time per source or one shared time; " + R, weight=2)
def from_t_evol(x):
    E = x.lw.evol
    n = x.choice("sources", [1, 2, 3])
    step = x.choice("n_step", [2, 3, 4])
    shared = x.choice("shared", [False, True])
    unit = x.choice("unit", [u.yr, u.s])
    a, b, e = binaries(x, n)
    t = x.real("t", 0, 1e12, u.yr, None if shared else (n,))
    ts = E.create_timesteps_array(a_i=a, beta=b, ecc_i=e, t_evol=t.to(unit), n_step=step)
    x.shape("shape", ts, (n, step))
    for i in range(n):
        for j in range(step):
            x.close("evenly spaced", ts[i, j], (t if shared else t[i]) * j / (step - 1), scale=1e-12 * u.s)


@scenario(bounds="2-3 sources, 2-4 steps, default evolution time = each source's merger time; " + R, weight=2)
def from_merger_time(x):
    E = x.lw.evol
    n = x.choice("sources", [2, 3])
    step = x.choice("n_step", [2, 4])
    a, b, e = binaries(x, n)
    stub_t_merge(x, a, b, e, n)
    ts = E.create_timesteps_array(a_i=a, beta=b, ecc_i=e, n_step=step)
    x.shape("shape", ts, (n, step))
    for i in range(n):
        for j in range(step):
            x.close("up to the merger time", ts[i, j].to(u.yr), x.tm[i] * j / (step - 1), scale=1e-12 * u.s)
    t2 = E.create_timesteps_array(a_i=a, beta=b, ecc_i=e)
    x.shape("default number of steps", t2, (n, 100))


def stub_t_merge(x, a, b, e, n):
    """get_t_merge_ecc gives the free value tm[i] for source i, whatever way it is asked"""
    x.tm = x.real("tm", 1e-3, 1e13, u.yr, (n,))
    x.tm_calls = []
    lw = x.lw

    def near(p, q):
        if x.symbolic:
            from engine import sym
            p, q = sym._lift(p), sym._lift(q)
            return sym.same(sym.canon(p.p), sym.canon(q.p)) or not sym.canon(sym.padd(p.p, q.p, -1.0)).t
        return abs(p - q) <= 1e-9 * max(abs(p), abs(q))

    def lookup(ai, bi, ei):
        for i in range(n):
            if near(ai, si(a[i], u.m)) and near(bi, si(b[i], u.m**4 / u.s)) and near(ei, e[i]):
                return x.tm[i].to_value(u.Gyr)
        return 7.7777e3

    def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None, small_e_tol=0.15,
                        large_e_tol=1 - 1e-4, exact=True):
        beta, a_i = lw.evol.check_mass_freq_input(beta=beta, m_1=m_1, m_2=m_2, a_i=a_i, f_orb_i=f_orb_i)
        x.tm_calls.append(exact)
        aa, bb = si(a_i, u.m), si(beta, u.m**4 / u.s)
        if isinstance(ecc_i, u.Quantity):
            ecc_i = ecc_i.value
        if np.ndim(ecc_i) == 0:
            return lookup(aa, bb, ecc_i) * u.Gyr
        return x.np.array([lookup(aa[i], bb[i], ecc_i[i]) for i in range(len(ecc_i))]) * u.Gyr
    x.replace(lw.evol.get_t_merge_ecc, get_t_merge_ecc)


@scenario(bounds="1-3 sources, explicit 1D (2-3 times) or 2D times, with a competing t_evol and n_step; " + R, weight=2)
def explicit(x):
    E = x.lw.evol
    n = x.choice("sources", [1, 2, 3])
    two_d = x.choice("2D", [False, True])
    k = x.choice("times", [2, 3])
    unit = x.choice("unit", [u.yr, u.Myr])
    a, b, e = binaries(x, n)
    t = x.real("t", 0, 1e12, u.yr, (n, k) if two_d else (k,))
    te = x.choice("competing t_evol", [None, 5 * u.yr])
    steps = x.choice("competing n_step", [7, 1]) if n == 2 else 7
    ts = E.create_timesteps_array(a_i=a, beta=b, ecc_i=e, t_evol=te, n_step=steps, timesteps=t.to(unit))
    x.shape("shape", ts, (n, k))
    for i in range(n):
        for j in range(k):
            x.close("values unchanged", ts[i, j], t[i, j] if two_d else t[j])


@scenario(bounds="a single source given as scalars, 1D times", weight=1)
def explicit_scalar(x):
    E = x.lw.evol
    a = x.real("a", 1e-4, 1e2, u.AU)
    b = x.real("beta", 1e12, 1e36, u.m**4 / u.s)
    t = x.real("t", 0, 1e12, u.yr, (3,))
    ts = E.create_timesteps_array(a_i=a, beta=b, timesteps=t)
    x.shape("shape", ts, (1, 3))
    for j in range(3):
        x.close("values unchanged", ts[0, j], t[j])


@scenario(bounds="the grids as returned by evol_circ: 1-2 sources; " + R, weight=2)
def through_evol_circ(x):
    E = x.lw.evol
    n = 2
    a, b, e = binaries(x, n)
    t = x.real("t", 0, 1e12, u.yr, (n,))
    k = x.choice("case", ["per source", "shared", "grid", "precedence"])
    kw = {"per source": dict(t_evol=t, n_step=3), "shared": dict(t_evol=t[0], n_step=3),
          "grid": dict(timesteps=t), "precedence": dict(timesteps=t, t_evol=3 * u.yr, n_step=5)}[k]
    out = E.evol_circ(a_i=a, beta=b, output_vars="timesteps", **kw)
    grid = k in ("grid", "precedence")
    x.shape("shape", out, (n, 2 if grid else 3))
    for i in range(n):
        for j in range(out.shape[1]):
            want = t[j] if grid else (t[i] if k == "per source" else t[0]) * j / 2
            x.close("times", out[i, j], want, scale=1e-12 * u.s)


@scenario(bounds="2 sources, 120 explicit times (more than the default number of steps), shared or per source; " + R)
def long_grid(x):
    E = x.lw.evol
    a, b, e = binaries(x, 2)
    two_d = x.choice("2D", [False, True])
    w = x.real("w", 1, 1e9, u.yr, (2,) if two_d else None)
    grid = np.linspace(0, 1, 120)
    t = x.np.array([grid * si(w[i], u.yr) for i in range(2)]) * u.yr if two_d else grid * w
    ts = E.create_timesteps_array(a_i=a, beta=b, ecc_i=e, timesteps=t)
    x.shape("shape", ts, (2, 120))
    for i in range(2):
        for j in (0, 1, 50, 99, 100, 118, 119):
            x.close("values unchanged", ts[i, j], t[i, j] if two_d else t[j])
