"""C01: grid coordinates, areas, Coriolis parameter."""
import numpy as np, barotropic as bt
from lib.gen import *

RULE = "a case is one (resolution, radius, omega) configuration; all attributes are compared pointwise with closed forms"

# point counts for which 360/(360/n) is not n in floating point are over-represented
HARD = [n for n in range(8, 1100, 2) if int(360. / (360. / n)) != n or int(180. / (360. / n)) != n // 2]
HARD32 = [n for n in range(8, 700, 2) if int(360. / np.float32(360. / n)) != n or int(180. / np.float32(360. / n)) != n // 2]


def _verify(c, g, n, r, w, tol=1e-12):
    nlat = n // 2 + 1
    if not c.equal((g.nlon, g.nlat), (n, nlat), "number of longitudes and latitudes"):
        return
    c.equal(tuple(g.shape), (nlat, n), "shape")
    lon = np.arange(n) * (360. / n)
    lat = 90. - np.arange(nlat) * (180. / (nlat - 1))
    t = dict(rtol=0, atol=360 * tol)
    c.close(g.lon, lon, "lon", **t)
    c.close(g.lat, lat, "lat", **t)
    c.check(g.lat[0] == 90. and g.lat[-1] == -90. and g.lon[0] == 0., "end points of the coordinates are exact")
    c.close(g.lam, np.deg2rad(lon), "lam", **t)
    c.close(g.phi, np.deg2rad(lat), "phi", **t)
    one = np.ones((nlat, n))
    c.close(g.lon2, one * lon[None, :], "lon2", **t)
    c.close(g.lat2, one * lat[:, None], "lat2", **t)
    c.close(g.lam2, np.deg2rad(one * lon[None, :]), "lam2", **t)
    c.close(g.phi2, np.deg2rad(one * lat[:, None]), "phi2", **t)
    d = 360. / n
    s = dict(rtol=max(tol, 1e-12))
    c.close(g.dlon, d, "dlon", **s)
    c.close(g.dlat, -d, "dlat", **s)
    c.close(g.dlam, np.deg2rad(d), "dlam", **s)
    c.close(g.dphi, -np.deg2rad(d), "dphi", **s)
    # Coriolis, circumference
    scale = max(abs(w), 1e-300)
    phi = np.deg2rad(lat)
    c.close(g.fcor, 2 * w * np.sin(phi), "fcor", atol=1e-12 * scale)
    c.close(g.fcor2, 2 * w * np.sin(phi)[:, None] * one, "fcor2", atol=1e-12 * scale)
    for x in (float(c.rng.uniform(-90, 90)), int(c.rng.integers(-90, 91)), c.rng.uniform(-90, 90, size=7), g.lat2, g.lat,
              c.rng.integers(-90, 91, size=5), c.rng.integers(-90, 91, size=(2, 3)), np.int64(c.rng.integers(-90, 91)),
              np.float64(c.rng.uniform(-90, 90)), np.arange(90, -91, -10)[::2], np.array(45), np.array(c.rng.uniform(-90, 90, 6))[::-1]):
        c.close(g.coriolis(x), 2 * w * np.sin(np.deg2rad(x)), "coriolis(lat)", atol=1e-12 * scale)
        c.close(g.circumference(x), 2 * np.pi * r * np.cos(np.deg2rad(x)), "circumference(lat)", atol=1e-11 * r)
    c.close(g.rsphere, r, "rsphere", rtol=1e-15)
    c.close(g.omega, w, "omega", rtol=1e-15)
    # Areas of the cells, computed as a difference of band areas
    h = np.deg2rad(d) / 2
    up = np.minimum(phi + h, np.pi / 2); lo = np.maximum(phi - h, -np.pi / 2)
    # sin(up)-sin(lo) without cancellation
    area = r * r * np.deg2rad(d) * 2 * np.cos((up + lo) / 2) * np.sin((up - lo) / 2)
    a = np.asarray(g.gridpoint_area)
    if c.equal(a.shape, (nlat,), "shape of gridpoint_area"):
        c.close(a / area, np.ones(nlat), "gridpoint_area relative to the exact cell areas", atol=max(1e-8, 10 * tol))
        c.close(np.sum(a) * n, 4 * np.pi * r * r, "sum of areas", rtol=max(1e-11, 10 * tol))
        c.check(np.all(a > 0), "areas are positive")
    c.event("grids")
    c.event("grid points", n * nlat)


def regular(c):
    n = int(2 * c.rng.integers(4, 130))
    r = float(pick(c.rng, RADII)) * float(c.rng.uniform(0.5, 2))
    w = float(pick(c.rng, OMEGAS)) * float(c.rng.uniform(0.5, 2))
    how = pick(c.rng, ["360/n", "180/k", "np.float64", "kw"])
    leg = pick(c.rng, ["stored", "computed"])
    nt = None if c.rng.random() < .6 else int(c.rng.integers(2, n // 2 + 1))
    c.note(nlon=n, r=r, omega=w, how=how, legfunc=leg, ntrunc=nt)
    res = 180. / (n // 2) if how == "180/k" else 360. / n
    if how == "np.float64":
        res = np.float64(res)
    g = bt.Grid(res, r, w, nt, leg) if how != "kw" else bt.Grid(resolution=res, rsphere=r, omega=w, ntrunc=nt, legfunc=leg)
    _verify(c, g, n, r, w)


def integer_resolution(c):
    d = int(pick(c.rng, [1, 2, 3, 4, 5, 6, 9, 10, 12, 15, 18, 20, 30, 36, 45]))
    c.note(resolution=d)
    r = int(c.rng.integers(1000, 10000000))
    _verify(c, bt.Grid(d, rsphere=r), 360 // d, r, EARTH_W)


def default(c):
    c.note(default=True)
    g = bt.Grid()
    c.check(abs(g.rsphere / 6.371e6 - 1) < 2e-3 and abs(g.omega / 7.292e-5 - 1) < 1e-3, "defaults are planet Earth")
    _verify(c, g, 144, g.rsphere, g.omega)


def hard_to_represent(c):
    n = HARD[c.index] if c.index < min(len(HARD), 5) else int(pick(c.rng, HARD))
    c.note(nlon=n)
    g = bt.Grid(360. / n, legfunc="computed", ntrunc=4)
    _verify(c, g, n, g.rsphere, g.omega)


def single_precision_resolution(c):
    n = int(pick(c.rng, HARD32 if c.rng.random() < .6 else list(range(8, 400, 2))))
    c.note(nlon=n)
    g = bt.Grid(np.float32(360. / n), legfunc="computed", ntrunc=4)
    _verify(c, g, n, g.rsphere, g.omega, tol=3e-7)


def package_constants(c):
    """The names the package exports: the Earth, the axes of a field, the time intervals."""
    c.note(constants=True)
    ns = {}
    exec("from barotropic import *", ns)
    for name in ("Grid", "BarotropicModel", "State", "StateList", "diagnostics", "init", "plot", "rhs", "io",
                 "ZONAL", "MERIDIONAL", "MIN", "HOUR", "DAY", "WEEK"):
        c.check(name in ns and ns[name] is getattr(bt, name, None), f"'from barotropic import *' gives {name}")
    for name, seconds in (("MIN", 60), ("HOUR", 3600), ("DAY", 86400), ("WEEK", 604800)):
        c.equal(getattr(bt, name), seconds, f"seconds of a {name}")
    g = bt.Grid(360. / int(2 * c.rng.integers(4, 30)), legfunc="computed", ntrunc=3)
    lead = tuple(int(x) for x in c.rng.integers(2, 5, int(c.rng.integers(0, 3))))
    shape = lead + tuple(g.shape)
    c.check(shape[bt.MERIDIONAL] == g.nlat and shape[bt.ZONAL] == g.nlon, "axes of a stack of fields")
    c.equal(np.zeros(shape).mean(axis=bt.ZONAL).shape, lead + (g.nlat,), "a zonal mean leaves the latitudes")
    c.equal(np.zeros(shape).mean(axis=bt.MERIDIONAL).shape, lead + (g.nlon,), "a meridional mean leaves the longitudes")
    c.close(g.rsphere, 6371.2e3, "radius of the Earth", rtol=1e-12)
    c.close(g.omega, 7.292e-5, "rotation rate of the Earth", rtol=1e-12)


CASES = [(package_constants, 1, 20), (regular, 40, 1200), (integer_resolution, 8, 60), (default, 1, 1), (hard_to_represent, 6, 200), (single_precision_resolution, 6, 200)]
REQUIRED_EVENTS = {"grids": 30}
