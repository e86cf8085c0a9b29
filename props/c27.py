"""C27: saving and loading a collection loses nothing"""
import builtins
import os
import shutil
import tempfile
import types

import numpy as np
from astropy import units as u

from engine.core import scenario
from .common import si
from .sources import files, members, source, Curves
from .c26 import full, same

R = ("masses 0.1-50 Msun, frequencies 1e-5-1e-2 Hz, eccentricities 0-0.995; in symbolic runs the HDF5 library is replaced by an "
     "in-memory store with its conversions, in replays it is the real one")


# ------------------------------------------------------------------------------------------- a stand-in for HDF5 files
class Attrs(dict):
    """attributes: numbers and booleans come back as numpy scalars, strings as strings"""

    def __setitem__(self, k, v):
        if isinstance(v, bytes):
            v = v.decode()
        if isinstance(v, str):
            pass
        elif isinstance(v, (bool, np.bool_)):
            v = np.bool_(v)
        elif isinstance(v, (int, np.integer)):
            v = np.int64(v)
        elif isinstance(v, (float, np.floating)):
            v = np.float64(v)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fibO":
            v = v.copy() if v.ndim else v.item()
        elif type(v).__name__ == "Sym":
            pass
        else:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v

    def create(self, name, data, **k):
        self[name] = data

    modify = create


class Dataset:
    def __init__(self, data):
        data = np.asarray(data)
        if data.dtype.kind not in "fibuO":
            raise TypeError("No conversion path for dtype")
        self.data, self.attrs = data.copy(), Attrs()

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)

    def __getitem__(self, k):
        r = self.data[k]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __len__(self):
        return len(self.data)

    def __array__(self, *a, **k):
        return self.data.copy()


def stored(x, data, dtype, digits):
    """the numbers that h5py reads back"""
    data = np.asarray(data)
    if data.dtype.kind not in "fO":
        return data if dtype is None else data.astype(dtype)
    if digits is not None or (dtype is not None and np.dtype(dtype) in (np.float16, np.float32)):
        out = np.empty(data.shape, dtype=object)
        for i in np.ndindex(data.shape):
            out[i] = x.unknown("fewer digits", [data[i]], -1e3, 1e3)
        return out
    if dtype is not None and np.dtype(dtype).kind in "iu":
        raise TypeError("numbers stored as integers")
    return data


class Group(dict):
    x = None

    def __init__(self):
        super().__init__()
        self.attrs = Attrs()

    def create_group(self, name):
        if name in self:
            raise ValueError("Unable to create group (name already exists)")
        self[name] = Group()
        return self[name]

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if name in self:
            raise ValueError("Unable to create dataset (name already exists)")
        self[name] = Dataset(stored(self.x, data, dtype, k.get("scaleoffset")))
        return self[name]


class Store:
    """h5py"""

    def __init__(self, x):
        self.disk = {}
        store = self
        Group.x = x

        class File(Group):
            def __init__(self, name, mode="r"):
                name = os.path.abspath(str(name))
                super().__init__()
                if mode in ("r", "r+"):
                    if name not in store.disk:
                        raise FileNotFoundError(name)
                    self.update(store.disk[name][0])
                    self.attrs = store.disk[name][1]
                elif mode == "w":
                    store.disk[name] = (self, self.attrs)
                    with builtins.open(name, "w") as fh:
                        fh.write("stored")
                else:
                    raise OSError("mode " + mode)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def flush(self):
                pass
        self.File, self.Group, self.Dataset = File, Group, Dataset


def scratch(x, body):
    d = tempfile.mkdtemp(prefix="c27_")
    try:
        if x.symbolic:
            st = Store(x)
            x.patch(x.lw.source, "h5py", types.SimpleNamespace(File=st.File, Group=st.Group, Dataset=st.Dataset))
        body(d)
    finally:
        shutil.rmtree(d)


def noise(f, t=None, **k):
    return 1e-40 / u.Hz


def custom(f, t_obs=None, L=None, approximate_R=None, confusion_noise=None):
    return 1e-40 / u.Hz


SETTINGS = [{}, dict(instrument="TianQin", t_obs=3 * u.yr, L=1e8 * u.m, approximate_R=True, confusion_noise=None),
            dict(t_obs=36 * u.month if hasattr(u, "month") else 3 * u.yr, confusion_noise="robson19"),
            dict(instrument="DECIGO", confusion_noise="huang20", L=1e6 * u.km),
            dict(confusion_noise=noise), dict(instrument="custom", custom_psd=custom, t_obs=1000 * u.day)]


def compare(x, c, s, sc=None, **over):
    same(x, c, s, list(range(s.n_sources)))
    for name in ("m_1", "m_2", "dist", "f_orb", "t_merge", "inclination", "polarisation"):
        if getattr(s, name) is not None:
            x.require("unit of " + name, getattr(c, name).unit == getattr(s, name).unit)
    x.require("gw_lum_tol", float(c.gw_lum_tol) == float(s.gw_lum_tol))
    x.require("stat_tol", float(c.stat_tol) == float(s.stat_tol))
    x.require("ecc_tol", c.ecc_tol == s.ecc_tol)
    x.eq("n_proc", int(c.n_proc), int(over.get("n_proc", s.n_proc)))
    x.eq("interpolate_g", bool(c.interpolate_g), bool(over.get("interpolate_g", s.interpolate_g)))
    x.eq("interpolate_sc", bool(c.interpolate_sc), bool(over.get("interpolate_sc", s.interpolate_sc)))
    want = dict(s.sc_params)
    if callable(want["confusion_noise"]):
        want["confusion_noise"] = "auto"
    want["custom_psd"] = None
    x.eq("sensitivity settings", sorted(c.sc_params), sorted(want))
    for k, v in want.items():
        g = c.sc_params[k]
        if isinstance(v, u.Quantity):
            x.require("setting %s is a quantity" % k, isinstance(g, u.Quantity) and g.unit == v.unit, repr(g))
            x.close("setting %s" % k, g, v)
        else:
            x.require("setting %s" % k, type(g) is type(v) and g == v, "%r instead of %r" % (g, v))


@scenario(bounds="3 sources, optional attributes present or absent, 6 sets of sensitivity settings; " + R, weight=2)
def roundtrip(x):
    files(x)
    Curves(x)

    def body(d):
        cls, place, computed, weights = x.choice("attributes", [("Source", False, True, True), ("Source", True, True, False),
                                                                ("Stationary", False, False, False), ("Evolving", True, False, True)])
        given = x.choice("settings", SETTINGS)
        s = full(x, place, computed, weights, cls, interpolate_sc=False, sc_params=dict(given))
        ext = x.choice("name", ["a", "b.h5", "c.hdf5"]) if cls == "Source" and not given else "a.h5"
        p = os.path.join(d, ext)
        s.save(p)
        x.eq("file name", os.listdir(d), [ext if "." in ext else ext + ".h5"])
        c = x.lw.source.Source.from_file(p)
        x.require("class", type(c) is type(s), type(c).__name__)
        compare(x, c, s)
        x.require("custom functions are not invented", c.sc_params["custom_psd"] is None)
    scratch(x, body)


@scenario(bounds="7 sources with every attribute; " + R)
def many(x):
    files(x)
    Curves(x)

    def body(d):
        s = full(x, n=7, place=x.choice("placed", [False, True]))
        s.save(os.path.join(d, "a.h5"))
        compare(x, x.lw.source.Source.from_file(os.path.join(d, "a.h5")), s)
    scratch(x, body)


@scenario(bounds="1-2 sources; interpolation and processes saved, or overridden while loading; " + R)
def options(x):
    files(x)
    Curves(x)

    def body(d):
        g, sc, proc = x.choice("saved", [(True, True, 1), (False, True, 4), (True, False, 2), (False, False, 1)])
        s = source(x, members(x, 2), interpolate_g=g, interpolate_sc=sc, n_proc=proc)
        p = os.path.join(d, "a.h5")
        s.save(p)
        over = x.choice("overridden", [{}, dict(interpolate_g=True), dict(interpolate_g=False), dict(interpolate_sc=False), dict(interpolate_sc=True),
                                       dict(n_proc=8)])
        cls = x.choice("loaded as", ["Source", "Evolving"])
        c = getattr(x.lw.source, cls).from_file(p, **over)
        x.require("class", type(c) is getattr(x.lw.source, cls))
        compare(x, c, s, **over)
    scratch(x, body)


def content(d):
    with open(d, "rb") as fh:
        return fh.read()


@scenario(bounds="2 sources; files that exist already, twice saved files, missing files; " + R)
def overwriting(x):
    files(x)
    Curves(x)

    def body(d):
        s = source(x, members(x, 2))
        t = source(x, members(x, 2, names=("m1b", "m2b", "db", "fb", "eb")), weights=x.real("w", 0, 1, None, (2,)))
        name = x.choice("name", ["a", "a.h5", "a.hdf5"])
        p = os.path.join(d, name)
        real = p if "." in name else p + ".h5"
        case = x.choice("case", ["exists", "overwrite", "missing", "again"])
        S = x.lw.source.Source
        if case == "missing":
            x.raises("missing file", FileNotFoundError, S.from_file, p)
            x.eq("nothing created", os.listdir(d), [])
            return
        s.save(p)
        if case == "again":
            c = S.from_file(p)
            q = os.path.join(d, "second.h5")
            c.save(q)
            compare(x, S.from_file(q), s)
            return
        if case == "exists":
            before = content(real)
            x.raises("existing file", FileExistsError, t.save, p)
            x.require("file untouched", content(real) == before)
            compare(x, S.from_file(p), s)
        else:
            t.save(p, overwrite=True)
            compare(x, S.from_file(p), t)
    scratch(x, body)


@scenario(bounds="2 sources observed with a custom instrument, curve interpolated; " + R)
def instrument(x):
    files(x)

    def body(d):
        f = x.real("f_at", 1e-5, 1e-2, u.Hz)
        s = source(x, members(x, 2), interpolate_sc=x.choice("interpolated", [True, False]), sc_params=dict(instrument="custom", custom_psd=flat))
        p = os.path.join(d, "a.h5")
        s.save(p)
        c = x.lw.source.Source.from_file(p)
        compare(x, c, s)
        c.sc_params["custom_psd"] = flat
        if s.interpolate_sc:
            x.close("curve once the function is supplied again", c.sc(f).to_value(1 / u.Hz), 1e-40)
        else:
            x.require("no curve", c.sc is None)
    scratch(x, body)


def flat(f, *a, **k):
    return np.full(f.shape, 1e-40) / u.Hz


@scenario(bounds="2 sources evolved, masked or analysed before they are saved; " + R)
def later(x):
    """what is saved is the present state"""
    files(x)
    Curves(x)

    def body(d):
        s = full(x)
        how = x.choice("before saving", ["masked", "settings", "tolerance", "separation"])
        if how == "masked":
            s = s[[2, 0]]
        elif how == "settings":
            s.sc_params["instrument"] = "TianQin"
            s.sc_params.update(t_obs=2 * u.yr)
        elif how == "tolerance":
            s.gw_lum_tol = 0.2
            s.stat_tol = 0.5
        else:
            s.a = x.real("a", 0.01, 10, u.AU, (3,))
        p = os.path.join(d, "a.h5")
        s.save(p)
        c = x.lw.source.Source.from_file(p)
        compare(x, c, s)
        x.close("separation", si(c.a, u.m), si(s.a, u.m))
    scratch(x, body)
