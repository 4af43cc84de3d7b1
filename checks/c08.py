"""C08: area-weighted means."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from lib.regions import selection
from checks.c07 import cell_areas

RULE = "a case is a grid, a field and possibly a region; expectation by summing over the selected gridpoints one by one"

SPELLINGS = {"all": [None], "meridional": [0, -2, "meridional"], "zonal": [1, -1, "zonal"]}


def _reference(f, area, jj, ii):
    num = den = 0.
    mer = []
    for i in ii:
        a = b = 0.
        for j in jj:
            a += float(f[j, i]) * area[j]
            b += area[j]
        mer.append(a / b)
        num += a
        den += b
    zon = [sum(float(f[j, i]) for i in ii) / len(ii) for j in jj]
    return {"all": num / den, "meridional": np.array(mer), "zonal": np.array(zon)}


def means(c):
    w = world(c, NLON_SMALL, truncate=0., legfunc=False)
    g = w.grid
    f = any_field(c, g.shape, float(pick(c.rng, [1., 1e-5, 1e4])))
    area = cell_areas(w.ref.nlon, w.ref.r)
    use_region = c.rng.random() < .65
    if use_region:
        region, jj, ii = selection(c, g, nonempty=True)
    else:
        region, jj, ii = None, list(range(g.nlat)), list(range(g.nlon))
    want = _reference(f, area, jj, ii)
    s = (1e-5 if f.dtype == np.float32 else 1e-11) * max(np.max(np.abs(f)), 1e-300)
    sub = np.array([[f[j, i] for i in ii] for j in jj])
    for what, spellings in SPELLINGS.items():
        for ax in spellings:
            for how in (["full"] if region is None else ["full", "extracted"]):
                if how == "extracted" and sub.shape == g.shape and ii != list(range(g.nlon)):
                    continue # indistinguishable from a full field
                arg = f if how == "full" else sub
                got = g.mean(arg, axis=ax, region=region)
                ok = c.close(got, want[what], f"{what} mean (axis={ax!r}, {how} field)", atol=s)
                if ok:
                    c.check(np.all(got >= sub.min() - s) and np.all(got <= sub.max() + s), f"{what} mean within the range of the values")
    c.close(g.mean(f, None, region), want["all"], "positional arguments", atol=s)
    if region is None:
        c.close(g.mean(f), want["all"], "default mean", atol=s)
        c.close(g.mean(np.full(g.shape, 3.)), 3., "mean of a constant", atol=1e-12)
    else:
        c.close(region.mean(f), want["all"], "the region's own mean", atol=s)
        if sub.shape != g.shape:
            c.close(region.mean(sub), want["all"], "the region's own mean of the extracted field", atol=s)
        c.event("regional means")
    c.event("means")


def decompositions(c):
    """The mean of the whole is the area-weighted mean of its parts."""
    w = world(c, NLON_SMALL, truncate=0., legfunc=False)
    g = w.grid
    f = c.rng.normal(size=g.shape)
    area = cell_areas(w.ref.nlon, w.ref.r)
    k = int(c.rng.integers(1, g.nlat - 1)) # split by latitude
    m = int(c.rng.integers(1, g.nlon - 1)) # split by longitude
    c.note(k=k, m=m)
    north, south = g.region[:, g.lat[k - 1]:90], g.region[:, -90:g.lat[k]]
    a, b = area[:k].sum(), area[k:].sum()
    c.close((g.mean(f, region=north) * a + g.mean(f, region=south) * b) / (a + b), g.mean(f), "split by latitude", atol=1e-11)
    west, east = g.region[0:g.lon[m - 1], :], g.region[g.lon[m]:, :]
    c.close((g.mean(f, region=west) * m + g.mean(f, region=east) * (g.nlon - m)) / g.nlon, g.mean(f), "split by longitude", atol=1e-11)
    c.close(np.mean(g.mean(f, axis="meridional")), g.mean(f), "mean of meridional means", atol=1e-11)
    c.close(np.sum(g.mean(f, axis="zonal") * area) / area.sum(), g.mean(f), "mean of zonal means", atol=1e-11)
    c.close(g.mean(f), g.quad(f, method="boxcount") / (4 * np.pi * w.ref.r ** 2), "mean is the boxcount integral over the area", atol=1e-11)
    j = int(c.rng.integers(g.nlat)); i = int(c.rng.integers(g.nlon))
    c.close(g.mean(f, region=g.region[g.lon[i], g.lat[j]]), f[j, i], "mean over one gridpoint", atol=1e-14)
    c.event("decompositions")


def rejects(c):
    w = world(c, NLON_SMALL, truncate=0., legfunc=False)
    g = w.grid
    f = np.ones(g.shape)
    region = g.region[:, g.lat[3]:g.lat[1]]
    kind = pick(c.rng, ["shape", "shape with region", "1d", "transposed", "axis"])
    c.note(bad=kind)
    bad_axis = pick(c.rng, [2, -3, "lat", "x", "Zonal", "longitude"])
    calls = {
        "shape": lambda: g.mean(f[1:]),
        "shape with region": lambda: g.mean(f[:2], region=region),
        "1d": lambda: g.mean(f[0]),
        "transposed": lambda: g.mean(f.T, region=pick(c.rng, [None, region])),
        "axis": lambda: g.mean(f, axis=bad_axis, region=pick(c.rng, [None, region])),
    }
    c.raises(calls[kind], f"mean with wrong {kind}")
    c.event("refusals")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    from lib.regions import selection
    reg = selection(c, g, nonempty=True)[0]
    axis = pick(c.rng, [None, 0, 1, "zonal", "meridional"])
    same_for_representations(c, lambda x: (g.mean(x, axis=axis), g.mean(x, axis=axis, region=reg), g.mean(reg.extract(x), axis=axis, region=reg)), [f], "mean", rtol=1e-5, floor=.1)
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (means, 150, 5000), (decompositions, 40, 1000), (rejects, 25, 200)]
REQUIRED_EVENTS = {"means": 100, "regional means": 50, "decompositions": 20, "refusals": 10}
