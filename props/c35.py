"""C35: the verification binaries are those of the catalogue"""
import os

import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import FakePos, OtherPos, si, rad
from .sources import table, Curves, in_use, FULL
from .c23 import Draws, follow
from .c24 import bound, stub_stationarity

R = ("catalogues of 1-3 binaries in the units of the packaged file (Msun, kpc, mHz, deg) or others; masses 0.01-2 Msun, frequencies 0.1-10 mHz; "
     "the galactic-to-ecliptic transformation (astropy) is an arbitrary function")
ASSUMPTIONS = ["the packaged catalogue file itself is not in this checkout: any catalogue with its columns is covered"]


class Item:
    def __init__(self, d):
        self.d = d

    def item(self):
        return self.d


def catalogue(x, n, units):
    U = dict(zip(("m", "d", "f", "a"), units))
    lab = ["bin%d" % i for i in range(n)]
    c = dict(m_1=x.real("m1", 0.01, 2, u.Msun, (n,)).to(U["m"]), m_2=x.real("m2", 0.01, 2, u.Msun, (n,)).to(U["m"]),
             dist=x.real("d", 0.05, 10, u.kpc, (n,)).to(U["d"]), f_GW=x.real("f", 0.1, 10, u.mHz, (n,)).to(U["f"]),
             l_gal=x.real("l", 0, 6.28, u.rad, (n,)).to(U["a"]), b_gal=x.real("b", -1.57, 1.57, u.rad, (n,)).to(U["a"]),
             i=x.real("inc", 0, 3.14, u.rad, (n,)).to(U["a"]), label=lab, snr=list(x.real("snr", 0.1, 100, None, (n,))))
    return c


def load(x, cat):
    real = np.load
    tab = table()

    def fn(path, *a, **k):
        name = os.path.basename(str(path))
        if name == "harmonics.npz":
            return tab
        if name == "verification_binaries.npy":
            return Item(dict(cat))
        return real(path, *a, **k)
    x.stub_np("load", fn)

    def sky(*a, **k):
        if k.get("frame") == "galactic":
            lon, lat = a if len(a) == 2 else (k["l"], k["b"])
            return OtherPos(x, lon, lat, "galactic", k.get("distance"))
        return FakePos(*a, **k)
    if x.symbolic:
        x.patch(x.lw.source, "SkyCoord", sky)
        p = OtherPos(x, cat["l_gal"], cat["b_gal"], "galactic").ecliptic()
    else:
        from astropy.coordinates import SkyCoord
        p = SkyCoord(l=cat["l_gal"], b=cat["b_gal"], distance=cat["dist"], frame="galactic").transform_to("barycentrictrueecliptic")
    return p.lon, p.lat


UNITS = [(u.Msun, u.kpc, u.mHz, u.deg), (u.kg, u.pc, u.Hz, u.rad)]


@scenario(bounds=R)
def contents(x):
    n = x.choice("n", [1, 2, 3])
    cat = catalogue(x, n, x.choice("units", UNITS))
    lon, lat = load(x, cat)
    curves = Curves(x)
    draws = Draws(x, np.random)
    x.stub_np("random", draws)
    s = x.lw.source.VerificationBinaries()
    x.eq("number of binaries", len(s), n)
    x.eq("labels", list(s.labels), list(cat["label"]))
    x.shape("shape of the published SNRs", s.true_snr, (n,))
    x.require("a collection like any other", isinstance(s, x.lw.source.Source))
    x.require("nothing computed or merged yet", s.snr is None and s.t_merge is None and not np.any(s.merged) and s.weights is None)
    for i in range(n):
        for name, col, unit in (("m_1", "m_1", u.kg), ("m_2", "m_2", u.kg), ("dist", "dist", u.m)):
            x.close(name, si(getattr(s, name)[i], unit), si(cat[col][i], unit))
        x.close("orbital frequency is half that of the waves", si(s.f_orb[i], u.Hz), si(cat["f_GW"][i], u.Hz) / 2)
        x.close("circular", s.ecc[i], 0.0)
        x.close("published SNR", s.true_snr[i], cat["snr"][i])
        x.close("ecliptic longitude", rad(s.position.lon[i]), rad(lon[i]))
        x.close("ecliptic latitude", rad(s.position.lat[i]), rad(lat[i]))
        x.close("distance of the position", si(s.position.distance[i], u.m), si(cat["dist"][i], u.m))
        x.close("inclination", rad(s.inclination[i]), rad(cat["i"][i]))
        x.true("polarisation drawn from its range", (rad(s.polarisation[i]) >= -1e-9) & (rad(s.polarisation[i]) <= np.pi + 1e-9))
        x.eq("dominant harmonic", int(s.max_snr_harmonic[i]), 2)
    x.shape("shape of the polarisations", s.polarisation, (n,))
    follow(x, s, n, s.m_1, s.m_2, s.f_orb)
    in_use(x, s, curves, FULL)
    x.require("exact g(n, e)", s.g is None and s.interpolate_g is False)


@scenario(bounds="indexing by every kind of index, and two catalogues loaded one after the other; " + R)
def indexing(x):
    cat = catalogue(x, 2, UNITS[0])
    load(x, cat)
    Curves(x)
    s = x.lw.source.VerificationBinaries()
    ind = x.choice("index", [0, -1, slice(None), [0, 1], np.array([True, False])])
    x.raises("subset of the verification binaries", NotImplementedError, lambda: s[ind])
    t = x.lw.source.VerificationBinaries()
    s.sc_params["instrument"] = "TianQin"
    x.eq("settings of the other", t.sc_params["instrument"], "LISA")
    for i in range(2):
        x.close("same frequency again", si(t.f_orb[i], u.Hz), si(cat["f_GW"][i], u.Hz) / 2)


@scenario(bounds="SNRs of 2 binaries, all or one of them; the SNR function (C19) is an arbitrary function of its arguments; " + R)
def snrs(x):
    n = 2
    cat = catalogue(x, n, UNITS[0])
    lon, lat = load(x, cat)
    Curves(x)
    stub_stationarity(x)
    s = x.lw.source.VerificationBinaries()
    real = x.lw.snr.snr_circ_stationary

    def val(m, f, d, lo, la, psi, inc):
        return x.unknown("snr", [si(m, u.Msun), si(f, u.Hz), si(d, u.kpc), rad(lo), rad(la), rad(psi), rad(inc)], 0.1, 1e3)

    def fn(*a, **k):
        p = bound(real, a, k)
        out = np.empty(len(p["f_orb"]), dtype=object if x.symbolic else float)
        for i in range(len(out)):
            out[i] = val(p["m_c"][i], p["f_orb"][i], p["dist"][i], p["position"].lon[i], p["position"].lat[i], p["polarisation"][i], p["inclination"][i])
        return out
    x.replace(real, fn)
    sel = x.choice("selected", [None, (True, False), (False, True)])
    got = s.get_snr_stationary(which_sources=None if sel is None else np.array(sel))
    k = 0
    for i in range(n):
        if sel is None or sel[i]:
            mc = x.lw.utils.chirp_mass(cat["m_1"][i], cat["m_2"][i])
            x.close("SNR of the binary with its own angles", got[k], val(mc, cat["f_GW"][i] / 2, cat["dist"][i], lon[i], lat[i], s.polarisation[i], cat["i"][i]))
            x.close("recorded SNR", s.snr[i], got[k])
            k += 1
    x.eq("number of SNRs", len(got), k)
    for i in range(n):
        x.close("published SNR unchanged", s.true_snr[i], cat["snr"][i])
