"""Collections of sources with symbolic members: the files that the package lacks here are replaced by small tables."""
import os

import numpy as np
from astropy import units as u

from .common import FakePos, position

E_MAX, N_TAB = 0.9, 6


class Npz(dict):
    files = property(lambda s: list(s))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def table(rows=4, n_max=120, e_max=E_MAX, spread=(2, 9, 40, 120)):
    """g(n, e) on a grid of eccentricities: all power in harmonic 2 at e = 0, spread evenly over more harmonics above.
    Row i needs about (1 - tolerance) * spread[i] harmonics."""
    e = 1 - np.logspace(0, np.log10(1 - e_max), rows)
    f = (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / (1 - e**2)**3.5
    g = np.zeros((rows, n_max))
    g[0, 1] = 1.0
    for i in range(1, rows):
        g[i, :spread[i]] = f[i] / spread[i]
        g[i, 1 + i] *= 1.001
    return Npz(e_lims=np.array([0.0, e_max, float(rows)]), n_max=np.float64(n_max), g_vals=g)


class GTable:
    """stands for the interpolated table of g(n, e)"""

    def __init__(self, x, log):
        self.x, self.log = x, log

    def __call__(self, n, e, z, *a, **k):
        self.log.append((np.asarray(n), np.asarray(e), z))
        return self

    def ev(self, n, e):
        return self.x.g(n, e)

    __array_ufunc__ = None


def files(x, tab=None, glog=None):
    """np.load: the tables of the package, stubbed"""
    real = np.load
    tab = table() if tab is None else tab

    def load(path, *a, **k):
        name = os.path.basename(str(path))
        if name == "harmonics.npz":
            return tab
        if name == "peters_g.npy":
            return np.zeros((1000, 2))
        return real(path, *a, **k)
    x.stub_np("load", load)
    log = [] if glog is None else glog
    if hasattr(x.lw.source, "RectBivariateSpline"):
        x.patch(x.lw.source, "RectBivariateSpline", GTable(x, log))
    if x.symbolic:
        x.patch(x.lw.source, "SkyCoord", FakePos)
    return log


def members(x, n, eccentric=True, f_hi=1e-2, names=("m1", "m2", "d", "f", "e"), e_hi=0.995):
    shp = None if n is None else (n,)
    m1 = x.real(names[0], 0.1, 50, u.Msun, shp)
    m2 = x.real(names[1], 0.1, 50, u.Msun, shp)
    d = x.real(names[2], 0.1, 100, u.kpc, shp)
    f = x.real(names[3], 1e-5, f_hi, u.Hz, shp)
    if eccentric:
        e = x.real(names[4], 0, e_hi, None, shp)
    else:
        e = 0.0 if n is None else np.zeros(n)
    return dict(m_1=m1, m_2=m2, dist=d, f_orb=f, ecc=e)


def source(x, kw, cls="Source", **k):
    args = dict(interpolate_g=False, interpolate_sc=False)
    args.update(kw)
    args.update(k)
    return getattr(x.lw.source, cls)(**args)


# ------------------------------------------------------------------------------------------------- sensitivity curves
FULL = dict(instrument="LISA", custom_psd=None, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto")


def canonical(p):
    p = dict(FULL, **p)
    t = p["t_obs"]
    if isinstance(t, str):
        t = (4 if p["instrument"] == "LISA" else 5) * u.yr
    return tuple(round(v.si.value, 3) if isinstance(v, u.Quantity) else (v if isinstance(v, (str, bool, type(None))) else id(v))
                 for v in (p["instrument"], p["custom_psd"], t, p["L"], p["approximate_R"], p["confusion_noise"]))


class Curves:
    """power_spectral_density replaced by a different affine curve for every set of settings"""

    def __init__(self, x):
        self.seen = []
        self.calls = 0
        real = x.lw.psd.power_spectral_density

        def power_spectral_density(f, instrument="LISA", custom_psd=None, t_obs="auto", L="auto", approximate_R=False,
                                   confusion_noise="auto"):
            self.calls += 1
            if instrument == "Lisa":
                raise ValueError("instrument: `%s` not recognised" % instrument)
            p = dict(instrument=instrument, custom_psd=custom_psd, t_obs=t_obs, L=L, approximate_R=approximate_R,
                     confusion_noise=confusion_noise)
            return self.value(p, f.to_value(u.Hz)) / u.Hz
        x.replace(real, power_spectral_density)

    def value(self, p, f):
        k = canonical(p)
        if k not in self.seen:
            self.seen.append(k)
        c = 1e-40 * (3 + 2 * self.seen.index(k))
        return c + (c * 0.7) * f


def in_use(x, s, curves, want, label="curve in use"):
    """the interpolated curve of s is the one for these settings: inside the tabulated range, and infinite noise outside"""
    if want is None:
        x.require("no curve is used", s.sc is None)
        return
    x.require("a curve is used", callable(s.sc))
    f = x.real("f_at", 1.001e-7, 1.999, u.Hz)
    x.close(label, s.sc(f).to_value(1 / u.Hz), curves.value(want, f.to_value(u.Hz)), rtol=1e-3)
    lo, hi = x.real("f_below", 1e-9, 0.999e-7, u.Hz), x.real("f_above", 2.001, 100, u.Hz)
    for v in (lo, hi):
        x.close("noise outside the range", s.sc(v).to_value(1 / u.Hz), 1e30)
    kHz = x.real("f_kHz", 1.001e-10, 1.999e-3, u.kHz)
    x.close("curve at frequencies in other units", s.sc(kHz).to_value(1 / u.Hz), curves.value(want, kHz.to_value(u.Hz)), rtol=1e-3)
