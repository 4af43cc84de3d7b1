"""Seeded workload generators."""
import datetime as dt
import numpy as np
import barotropic as bt
from .refsphere import RefSphere

EARTH_R, EARTH_W = 6371.2e3, 7.292e-5

NLON_TINY = [8, 10, 12, 14, 16, 18, 20]
NLON_SMALL = [12, 16, 18, 20, 24, 28, 30, 36, 40]
NLON_MID = [36, 40, 48, 60, 72]
# now and then any case runs at a resolution that is common in practice
FINE = [80, 90, 100, 108, 120, 128, 144, 150, 160, 180]
FINE_SHARE = .015
VERY_FINE = [200, 240, 288, 320, 360, 400]
SLOW = {"C09", "C21", "C24", "C25", "C26", "C30", "C31", "C34"} # several diagnostics of order nlon**3 in a case
NLON_ALL = NLON_SMALL + [44, 48, 50, 60, 64, 72, 90, 100, 120]

RADII = [EARTH_R, EARTH_R, 3389.5e3, 1000., 1.e5, 7.1492e7, 1.]
OMEGAS = [EARTH_W, EARTH_W, 0., 1e-6, 7.0882e-5, 1.75e-4, -2.99e-7, 1e-3]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


class World:
    """A grid of the library together with its reference sphere."""
    def __init__(self, grid, ref, ntrunc):
        self.grid, self.ref, self.ntrunc = grid, ref, ntrunc
        self.band = min(ntrunc, ref.nmax)

    def params(self):
        return dict(nlon=self.ref.nlon, r=self.ref.r, omega=self.ref.omega, ntrunc=self.ntrunc)


def world(c, nlons=NLON_SMALL, radii=RADII, omegas=OMEGAS, truncate=0.4, legfunc=True, nlon=None):
    rng = c.rng
    if nlon is None:
        nlon = pick(rng, nlons)
        if rng.random() < FINE_SHARE:
            nlon = pick(rng, VERY_FINE if rng.random() < .15 and c.runner.prop not in SLOW else FINE)
    if nlon >= 80:
        c.event("grids with 80 or more longitudes")
    r, w = float(pick(rng, radii)), float(pick(rng, omegas))
    nlat = nlon // 2 + 1
    ntrunc = None
    if rng.random() < truncate and nlat > 6:
        ntrunc = int(rng.integers(max(3, nlat // 3), nlat))
    leg = "computed" if (legfunc and rng.random() < 0.25) else "stored"
    kw = dict(resolution=360. / nlon, rsphere=r, omega=w)
    if ntrunc is not None:
        kw["ntrunc"] = ntrunc
    if leg != "stored":
        kw["legfunc"] = leg
    g = bt.Grid(**kw)
    c.note(nlon=nlon, r=r, omega=w, ntrunc=ntrunc, legfunc=leg)
    return World(g, RefSphere(nlon, r, w), nlat - 1 if ntrunc is None else ntrunc)


def earth(c, nlons=NLON_SMALL, nlon=None):
    return world(c, nlons, [EARTH_R], [EARTH_W], 0., False, nlon)


def vort_scale(ref):
    """A vorticity scale that fits the planet."""
    return max(abs(ref.omega), 1e-6) * 0.4


def flow(c, w, nmax=None, amplitude=None, zonal=False, slope=1.):
    """Random non-divergent flow: coefficients of its relative vorticity."""
    nmax = w.band if nmax is None else min(nmax, w.band)
    return w.ref.random(c.rng, nmax, 1, slope, vort_scale(w.ref) if amplitude is None else amplitude, zonal)


def any_field(c, shape, scale=1.):
    """Arbitrary (not band-limited) field of one of several kinds, as one of several dtypes/layouts."""
    rng = c.rng
    kind = pick(rng, ["noise", "smooth", "steps", "ints", "f32", "const", "spike", "small"])
    y = np.linspace(1, -1, shape[0])[:, None]
    x = np.linspace(0, 2 * np.pi, shape[1], endpoint=False)[None, :]
    if kind == "noise":
        f = rng.normal(size=shape) * scale
    elif kind == "smooth":
        f = scale * (y + 0.5 * np.sin(rng.integers(1, 5) * x + rng.uniform(0, 6)) * (1 - y ** 2) + 0.1 * rng.normal())
    elif kind == "steps":
        f = scale * np.round(3 * (y + 0.4 * np.cos(2 * x + rng.uniform(0, 6))))
    elif kind == "ints":
        f = rng.integers(-5, 6, size=shape)
    elif kind == "small":
        # types whose sums and differences do not fit the type
        t = pick(rng, [np.int8, np.uint8, np.int16, np.uint16, np.uint32, bool])
        lo, hi = (0, 1) if t is bool else (np.iinfo(t).min, np.iinfo(t).max)
        f = rng.integers(lo, hi, endpoint=True, size=shape).astype(t)
        kind += " " + np.dtype(t).name
    elif kind == "f32":
        f = (rng.normal(size=shape) * scale).astype(np.float32)
    elif kind == "const":
        f = np.full(shape, scale * rng.normal())
    else:
        f = np.zeros(shape); f[rng.integers(shape[0]), rng.integers(shape[1])] = scale
    lay = pick(rng, ["c", "f", "view", "ro"])
    if lay == "f":
        f = np.asfortranarray(f)
    elif lay == "view":
        big = np.zeros((shape[0] * 2, shape[1]), dtype=f.dtype)
        big[::2] = f
        f = big[::2]
    elif lay == "ro":
        f = f.copy(); f.flags.writeable = False
    c.note(field=kind, layout=lay)
    return f


def times(c):
    return pick(c.rng, [0, 0., 3600, 86400. * 3, -7200., np.float64(1234.5), dt.datetime(2020, 2, 28, 21, 0), dt.datetime(1969, 12, 31, 23, 59, 30)])
