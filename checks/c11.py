"""C11: region selection."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from lib.regions import selection, lon_selection, lat_selection

RULE = "a case is a grid and a selection; membership of every gridpoint decided one by one from its coordinates"


# the coordinates of some grids differ from decimal numbers, even that of the equator, some are closer than 1 degree
ODD = [50, 100, 150, 156, 200, 250, 300, 312, 400, 450]


def _grid(c, nlons=NLON_ALL):
    n = pick(c.rng, ODD if nlons is NLON_ALL and c.rng.random() < .15 else nlons)
    c.note(nlon=n)
    return bt.Grid(360. / n, legfunc="computed" if n > 200 else "stored")


def selections(c):
    g = _grid(c)
    region, jj, ii = selection(c, g)
    jj, ii = np.array(jj, int), np.array(ii, int)
    mask = np.zeros(g.shape, bool)
    for j in jj:
        mask[j, ii] = True
    c.check(np.array_equal(region.mask, mask), f"mask selects {np.count_nonzero(region.mask)} points, expected {mask.sum()}")
    c.check(region.mask.dtype == bool, "mask is boolean")
    c.equal(tuple(region.shape), (len(jj), len(ii)), "shape")
    c.check(np.array_equal(region.lat, g.lat[jj]), "latitudes", got=region.lat, want=g.lat[jj])
    c.check(np.array_equal(region.lon, g.lon[ii]), "longitudes", got=region.lon, want=g.lon[ii])
    c.check(np.array_equal(region.gridpoint_area, g.gridpoint_area[jj]), "areas of the latitudes")
    grid_lon = g.lon.copy()
    m = region.lon_mono
    c.check(np.all(np.diff(m) > 0), "monotonic longitudes increase", lon=m)
    c.close((np.asarray(m) - g.lon[ii] + 180) % 360 - 180, np.zeros(len(ii)), "monotonic longitudes are the longitudes", atol=1e-9)
    if len(ii):
        c.check(m[-1] - m[0] < 360, "monotonic longitudes span less than the globe")
        c.close(m[-1], g.lon[ii[-1]], "longitudes west of 0 are reduced, the others kept", atol=1e-9)
    before = region.lon.copy()
    region.lon_mono
    c.check(np.array_equal(region.lon, before) and np.array_equal(g.lon, grid_lon), "coordinates are not modified by lon_mono")
    # extraction
    f2 = c.rng.normal(size=g.shape) if c.rng.random() < .6 else np.arange(g.nlat * g.nlon).reshape(g.shape)
    fy, fx = c.rng.normal(size=g.nlat), c.rng.normal(size=g.nlon)
    want2 = np.array([[f2[j, i] for i in ii] for j in jj]).reshape(len(jj), len(ii))
    e2 = region.extract(f2)
    c.check(e2.shape == want2.shape and np.array_equal(e2, want2), "extraction of a field")
    c.check(np.array_equal(region.extract(fy), fy[jj]), "extraction of a meridional profile")
    c.check(np.array_equal(region.extract(fx), fx[ii]), "extraction of a zonal profile")
    out = region.extract(fx, f2, fy, f2)
    c.check(isinstance(out, tuple) and len(out) == 4, "several fields give a tuple")
    c.check(np.array_equal(out[0], fx[ii]) and np.array_equal(out[1], want2) and np.array_equal(out[2], fy[jj]) and np.array_equal(out[3], want2), "several fields in order")
    c.check(np.array_equal(region.extract(g.lon2), np.broadcast_to(region.lon, want2.shape)), "longitude field of the region")
    c.check(np.array_equal(region.extract(g.lat2), np.broadcast_to(region.lat[:, None], want2.shape)), "latitude field of the region")
    # an extracted copy cannot damage the field
    for full, part in ((f2, e2), (fy, region.extract(fy)), (fx, region.extract(fx)), (g.lat, region.extract(g.lat)), (g.lon, region.extract(g.lon)),
                       (g.lat, region.lat), (g.lon, region.lon), (g.lon, region.lon_mono), (g.gridpoint_area, region.gridpoint_area)):
        if part.size:
            keep = full.copy()
            try:
                part[...] = -part - 1
            except ValueError:
                pass
            c.check(np.array_equal(full, keep), "extracted data is independent of the field")
    c.event("regions")
    c.event("empty regions", int(not mask.any()))
    c.event("regions across 0", int(len(ii) > 1 and np.any(np.diff(ii) < 0)))


def equivalences(c):
    g = _grid(c)
    a, b = (float(x) for x in c.rng.uniform(-90, 90, 2))
    l, r = (float(x) for x in c.rng.uniform(0, 360, 2))
    c.note(a=a, b=b, l=l, r=r)
    same = lambda x, y, msg: c.check(np.array_equal(x.mask, y.mask) and np.array_equal(x.lon, y.lon) and np.array_equal(x.lat, y.lat), msg)
    same(g.region[l:r, a:b], g.region[l:r, b:a], "order of latitude limits")
    same(g.region[:, "N"], g.region[:, 0:], "'N' is the northern hemisphere with the equator")
    same(g.region[:, "S"], g.region[:, :0], "'S' is the southern hemisphere with the equator")
    same(g.region[l:r], g.region[l:r, :], "longitude alone")
    same(g.region[:], g.region[:, :], "everything")
    same(g.region[np.float64(l):np.float32(r), np.float64(a):], g.region[l:float(np.float32(r)), a:], "numpy numbers as limits")
    x, y = g.region[l:r, :].mask, g.region[r:l, :].mask
    on = np.isin(g.lon, [l, r])
    c.check(np.array_equal(x ^ y, np.broadcast_to(~on, g.shape)), "a range and the range across 0 complement each other")
    n, s = g.region[:, "N"].mask, g.region[:, "S"].mask
    c.check(np.array_equal(n & s, np.abs(g.lat2) < 1e-9) and (n | s).all(), "hemispheres share exactly the equator")
    c.event("equivalences")


def rejects(c):
    g = _grid(c, NLON_SMALL)
    f2 = np.ones(g.shape)
    off, offlat = float(g.lon[1]) / 2, float(g.lat[0] + g.lat[1]) / 2
    bads = {
        "lon step": lambda: g.region[0:100:2, :], "lat step": lambda: g.region[:, 0:50:1],
        "lon off grid": lambda: g.region[off, :], "lat off grid": lambda: g.region[:, offlat],
        "lon beyond": lambda: g.region[360., :], "lat beyond": lambda: g.region[:, 91.],
        "lon string": lambda: g.region["N", :], "lat string": lambda: g.region[:, "X"], "lat lower case": lambda: g.region[:, "north"],
        "lon limit type": lambda: g.region["0":"10", :], "lat limit type": lambda: g.region[:, "a":"b"],
        "lon stop type": lambda: g.region[0:"10", :], "lat stop type": lambda: g.region[:, 0:[1]],
        "lon list": lambda: g.region[[0, 10], :], "lat list": lambda: g.region[:, [0]],
        "lon None": lambda: g.region[None, :], "lat None": lambda: g.region[:, None],
        "3 dims": lambda: g.region[:, :, :], "0 dims": lambda: g.region[()], "ellipsis": lambda: g.region[..., :],
        "1 dim tuple": lambda: g.region[(slice(None),)],
    }
    # single values that are close to a coordinate, but do not name it
    d = float(g.lon[1])
    for axis, coords in (("lon", g.lon), ("lat", g.lat)):
        x = float(pick(c.rng, coords)) + float(np.exp(c.rng.uniform(np.log(.02), np.log(.49 * d)))) * pick(c.rng, [-1, 1])
        x = pick(c.rng, [float, np.float64])(x)
        c.raises(lambda: g.region[x, :] if axis == "lon" else g.region[:, x], f"{axis} {x} is not on the grid (spacing {d})")
    # values of the grid are accepted
    i, j = int(c.rng.integers(g.nlon)), int(c.rng.integers(g.nlat))
    ok, r = c.works(lambda: g.region[float(g.lon[i]), float(g.lat[j])], "single values on the grid")
    if ok:
        c.check(r.lon.tolist() == [g.lon[i]] and r.lat.tolist() == [g.lat[j]], f"point {g.lon[i]}, {g.lat[j]}: selected {r.lon}, {r.lat}")
    region = g.region[0:100, "N"]
    fields = {
        "no field": lambda: region.extract(), "rows": lambda: region.extract(f2[1:]), "columns": lambda: region.extract(f2[:, 1:]),
        "3d": lambda: region.extract(np.ones((2,) + g.shape)), "1d size": lambda: region.extract(np.ones(g.nlon + 1)),
        "0d": lambda: region.extract(np.array(1.)), "one of many": lambda: region.extract(f2, f2[2:]), "transposed": lambda: region.extract(f2.T),
        "extracted again": lambda: region.extract(region.extract(f2)),
    }
    name = pick(c.rng, list(bads)); c.note(bad=name)
    c.raises(bads[name], f"selection refused: {name}")
    name = pick(c.rng, list(fields)); c.note(field=name)
    c.raises(fields[name], f"extraction refused: {name}")
    c.event("refusals")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    f = any_field(c, g.shape)
    reg = selection(c, g)[0]
    same_for_representations(c, lambda x: reg.extract(x, x[:, 0], x[0]), [f], "extract", rtol=1e-7)
    for dtype in (bool, np.int16, np.float32, complex, object, "U3", "datetime64[s]"):
        x = np.round(np.abs(np.array(f, float)) / max(np.max(np.abs(f)), 1e-300) * 9).astype(int).astype(dtype)
        got = reg.extract(x)
        c.check(np.array_equal(got, x[reg.mask].reshape(reg.shape) if not (np.diff(reg.lon) < 0).any() else np.roll(x, -int(np.argmax(g.lon == reg.lon[0])), axis=1)[np.roll(reg.mask, -int(np.argmax(g.lon == reg.lon[0])), axis=1)].reshape(reg.shape))
                and got.dtype == x.dtype, f"extract keeps values and type of {x.dtype} fields")
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (selections, 300, 10000), (equivalences, 40, 1500), (rejects, 90, 1000)]
REQUIRED_EVENTS = {"regions": 200, "empty regions": 1, "regions across 0": 20, "refusals": 50}
