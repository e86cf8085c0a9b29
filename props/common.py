"""Reference formulas (SI numbers) written from the published equations, independent of LEGWORK's code.

Everything works on floats, numpy arrays and symbolic values alike."""
from fractions import Fraction as Fr
import math

import numpy as np
from astropy import constants as c
from astropy import units as u

G = float(c.G.to_value(u.m**3 / u.kg / u.s**2))
C = float(c.c.to_value(u.m / u.s))
MSUN = float(u.Msun.to(u.kg))
AU = float(u.AU.to(u.m))
KPC = float(u.kpc.to(u.m))
YR = float(u.yr.to(u.s))
PI = math.pi


def pw(x, p, q=1):
    return x ** (p / q)


def mchirp(m1, m2):
    return pw(m1 * m2, 3, 5) / pw(m1 + m2, 1, 5)


def beta(m1, m2):
    return 64 / 5 * G**3 / C**5 * m1 * m2 * (m1 + m2)


def F(e):
    return (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / pw(1 - e**2, 7, 2)


def kepler_f(a, m1, m2):
    return pw(G * (m1 + m2) / a**3, 1, 2) / (2 * PI)


def kepler_a(f, m1, m2):
    return pw(G * (m1 + m2) / (4 * PI**2 * f**2), 1, 3)


def g_ne(x, n, e):
    """Peters & Mathews 1963, Eq. 20 (n a positive integer)"""
    J = lambda k: x.jv(k, n * e)
    b1 = J(n - 2) - 2 * e * J(n - 1) + 2 / n * J(n) + 2 * e * J(n + 1) - J(n + 2)
    b2 = J(n - 2) - 2 * J(n) + J(n + 2)
    return n**4 / 32 * (b1**2 + (1 - e**2) * b2**2 + 4 / (3 * n**2) * J(n)**2)


def c0_over_a(e):
    """Peters 1964 Eq. 5.11 solved for c0 / a"""
    return (1 - e**2) * pw(e, -12, 19) * pw(1 + 121 / 304 * e**2, -870, 2299)


def h0n2(x, mc, dist, f, e, n, g=None):
    """squared strain of one harmonic, SI inputs"""
    if g is None:
        g = g_ne(x, n, e)
    return 2**(28 / 3) / 5 * pw(G * mc, 10, 3) * pw(PI * f, 4, 3) * g / (n**2 * C**8 * dist**2)


def fdot_n(mc, f, e, n):
    return n * 48 / (5 * PI) * pw(G * mc, 5, 3) / C**5 * pw(2 * PI * f, 11, 3) * F(e)


def dedt_f(mc, f, e):
    """Peters de/dt as a function of frequency"""
    return None


def apart(x, p, q, margin):
    """inputs closer than the margin to the boundary p = q are outside; says whether p < q"""
    d = p - q
    if d < 0:
        x.assume(d < -margin)
        return True
    x.assume(d > margin)
    return False


def si(q, unit):
    return q.to_value(unit)


# ------------------------------------------------------------------------------------------------ positions
class FakePos:
    """an ecliptic sky position with symbolic coordinates (what SkyCoord provides to LEGWORK)"""

    def __init__(self, lon, lat, distance=None, frame=None, **k):
        if distance is not None and np.shape(lon) != np.shape(distance):
            shp = np.broadcast_shapes(np.shape(lon), np.shape(distance))
            lon, lat, distance = (np.broadcast_to(v, shp, subok=True) for v in (lon, lat, distance))
        self.lon, self.lat, self.distance = lon, lat, distance
        self.frame = self
        self.name = frame or "barycentrictrueecliptic"

    shape = property(lambda s: s.lon.shape)
    ndim = property(lambda s: s.lon.ndim)
    size = property(lambda s: s.lon.size)
    isscalar = property(lambda s: s.lon.ndim == 0)

    def __len__(self):
        return len(self.lon)

    def __getitem__(self, k):
        return FakePos(self.lon[k], self.lat[k], self.distance[k] if self.distance is not None and np.ndim(self.distance) else self.distance)

    def transform_to(self, frame):
        return self

    def copy(self):
        return FakePos(self.lon.copy(), self.lat.copy(), self.distance)

    barycentrictrueecliptic = property(lambda s: s)
    spherical = property(lambda s: s)


class OtherPos:
    """a sky position in another frame: its ecliptic coordinates are arbitrary functions of the ones it was given"""

    def __init__(self, x, lon, lat, frame, distance=None):
        self._x, self._c, self.frame, self.name, self.distance = x, (lon, lat), self, frame, distance
        names = {"icrs": ("ra", "dec"), "galactic": ("l", "b")}[frame]
        setattr(self, names[0], lon)
        setattr(self, names[1], lat)

    shape = property(lambda s: s._c[0].shape)
    ndim = property(lambda s: s._c[0].ndim)
    size = property(lambda s: s._c[0].size)
    isscalar = property(lambda s: s._c[0].ndim == 0)

    def __len__(self):
        return len(self._c[0])

    def ecliptic(self):
        out = []
        for name, lo, hi in (("ecl_lon", 0, 6.28), ("ecl_lat", -1.57, 1.57)):
            lon, lat = (v.to_value(u.rad) for v in self._c)
            if np.ndim(lon) == 0:
                out.append(self._x.unknown(name + self.name, [lon, lat], lo, hi) * u.rad)
            else:
                out.append(self._x.obj([self._x.unknown(name + self.name, [lon[i], lat[i]], lo, hi) for i in range(len(lon))]) * u.rad)
        return FakePos(*out, distance=self.distance)

    def transform_to(self, frame):
        name = frame if isinstance(frame, str) else getattr(frame, "name", None) or getattr(frame, "__name__", "").lower()
        if name == self.name:
            return self
        if name != "barycentrictrueecliptic":
            raise NotImplementedError("transformation to " + str(name))
        return self.ecliptic()

    barycentrictrueecliptic = property(lambda s: s.ecliptic())


def other_position(x, shp, frame, name="pos"):
    """a position in another frame and the ecliptic coordinates it has"""
    lon = x.real(name + "_lon", 0, 6.28, u.rad, shp)
    lat = x.real(name + "_lat", -1.57, 1.57, u.rad, shp)
    if x.symbolic:
        pos = OtherPos(x, lon, lat, frame)
    else:
        from astropy.coordinates import SkyCoord
        pos = SkyCoord(lon, lat, distance=np.ones(shp or ()) * u.kpc, frame=frame)
    e = pos.transform_to("barycentrictrueecliptic")
    return pos, lon, lat, e.lon, e.lat


def position(x, shp, name="pos", unit=u.rad):
    lon = x.real(name + "_lon", 0, 6.28, u.rad, shp)
    lat = x.real(name + "_lat", -1.57, 1.57, u.rad, shp)
    if x.symbolic:
        return FakePos(lon.to(unit), lat.to(unit)), lon, lat
    from astropy.coordinates import SkyCoord
    return SkyCoord(lon=lon, lat=lat, distance=np.ones(shp or ()) * u.kpc, frame="barycentrictrueecliptic"), lon, lat


def amp_mod(x, lon, lat, psi, inc):
    """5/4 (a+^2 F+^2 + ax^2 Fx^2); plain radians"""
    np = x.np
    th = PI / 2 - lat
    ct, st = np.cos(th), np.sin(th)
    s2, ph = np.sin(2 * lon), lon
    Dp = 3 / 2048 * (487 + 158 * ct**2 + 7 * ct**4 - 162 * s2**2 * (1 + ct**2)**2)
    Dc = 3 / 512 * (120 * st**2 + ct**2 + 162 * s2**2 * ct**2)
    Dpc = 243 / 512 * ct * s2 * (2 * np.cos(ph)**2 - 1) * (1 + ct**2)
    c2, q2, s4 = np.cos(2 * psi), np.sin(2 * psi), np.sin(4 * psi)
    Fp = (c2**2 * Dp - s4 * Dpc + q2**2 * Dc) / 4
    Fc = (c2**2 * Dc + s4 * Dpc + q2**2 * Dp) / 4
    ci = np.cos(inc)
    return 5 / 4 * ((1 + ci**2)**2 / 4 * Fp + ci**2 * Fc)


def rad(q):
    return q.to_value(u.rad)


# ------------------------------------------------------------------------------------------------ noise curves
def _curve(f, slope=0.0):
    """a smooth positive curve, only used for concrete values: from falling steeply to rising steeply around 1 mHz"""
    z = math.log(f / 1e-3)
    return 1e-38 * (1 + (1e-3 / f)**2 * 0.7 + 3.0 * f**0.5 + 0.1 * math.cos(3 * math.log(f))) * math.exp(slope * math.tanh(z))


def sn(x, f):
    """S_n(f) in 1/Hz of an arbitrary sensitivity curve (f in Hz): an uninterpreted positive function. The second argument only
    makes sampled points and replays meet curves of different shapes."""
    slope = x.real("S_n_slope", -15, 15)
    if x.symbolic:
        from engine import sym
        sym.FN_EVAL.setdefault("sn", lambda a: _curve(*a))
        return sym.new_fn("sn", (f, slope), 1e-60, 1.0)
    return _curve(float(f), slope)


def curve(x, seen=None):
    """the interpolated sensitivity a caller may supply: elementwise, shape preserving"""
    def fn(f):
        v = f.to_value(u.Hz)
        if seen is not None:
            seen.append(np.shape(v))
        if np.ndim(v) == 0:
            return sn(x, v if not isinstance(v, np.ndarray) else v.item()) / u.Hz
        out = np.empty(v.shape, dtype=object if x.symbolic else float)
        for i in np.ndindex(*v.shape):
            out[i] = sn(x, v[i])
        return out / u.Hz
    return fn


def psd_stub(x, fn=None):
    """power_spectral_density replaced by an arbitrary curve; records the settings it is asked for"""
    calls = []
    fn = fn or curve(x)

    def power_spectral_density(f, instrument="LISA", custom_psd=None, t_obs="auto", L="auto", approximate_R=False,
                               confusion_noise="auto"):
        calls.append(dict(instrument=instrument, custom_psd=custom_psd, t_obs=t_obs, L=L, approximate_R=approximate_R,
                          confusion_noise=confusion_noise))
        return fn(f)
    x.replace(x.lw.psd.power_spectral_density, power_spectral_density)
    return calls


DEFAULTS = dict(instrument="LISA", custom_psd=None, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto")


def settings_ok(x, calls, t_obs, **given):
    """the code asked for the caller's sensitivity, over the observation itself"""
    want = dict(DEFAULTS, **given)
    x.require("a sensitivity was evaluated", len(calls) > 0, "none")
    for c in calls:
        for k, v in want.items():
            if k != "t_obs":
                if isinstance(v, u.Quantity):
                    x.close("sensitivity setting %s" % k, c[k], v)
                else:
                    x.require("sensitivity setting %s" % k, c[k] is v or c[k] == v, "%r instead of %r" % (c[k], v))
        x.close("observation time of the sensitivity", c["t_obs"], t_obs)


SETTINGS = [{}, dict(instrument="TianQin", approximate_R=True), dict(confusion_noise=None, approximate_R=True),
            dict(instrument="DECIGO", confusion_noise="huang20", L=1e9 * u.m), dict(instrument="custom", custom_psd=abs)]
