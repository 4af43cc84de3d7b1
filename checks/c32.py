"""C32: meridional interpolation."""
import numpy as np, scipy.interpolate, barotropic as bt
from lib.gen import *
from lib.core import Stop
from lib.reps import representations as same_for_representations

RULE = "a case is a grid, input latitudes, data and pole values; expectation by locating the two neighbours of every target latitude"


def _latitudes(c, g):
    rng = c.rng
    kind = pick(rng, ["regular", "dual", "random", "grid", "few", "cluster", "gauss"])
    n = int(rng.integers(1, 40))
    lat = {"regular": lambda: np.linspace(90, -90, n + 2)[1:-1], "dual": lambda: .5 * (g.lat[1:] + g.lat[:-1]),
           "random": lambda: rng.uniform(-89.9, 89.9, n), "grid": lambda: np.array(g.lat), "few": lambda: rng.uniform(-80, 80, int(rng.integers(1, 3))),
           "cluster": lambda: np.concatenate([rng.uniform(40, 50, n), [-33.]]), "gauss": lambda: np.rad2deg(np.arcsin(np.polynomial.legendre.leggauss(n + 1)[0]))}[kind]()
    lat = np.unique(lat)
    if len(lat) > 1: # no pairs so close that the slope is not defined
        lat = lat[np.append(True, np.diff(lat) > 1e-3)]
    poles = pick(rng, ["none", "none", "north", "south", "both"]) if kind != "grid" else "both"
    if kind != "grid":
        lat = np.concatenate([[-90.] if poles in ("south", "both") else [], lat, [90.] if poles in ("north", "both") else []])
    order = pick(rng, ["down", "up", "shuffled"])
    lat = {"down": lat[::-1], "up": lat, "shuffled": rng.permutation(lat)}[order].copy()
    if rng.random() < .15 and np.all(np.abs(lat - np.round(lat)) < 1e-12):
        lat = np.round(lat).astype(int)
    c.note(latitudes=kind, poles=poles, order=order, n=len(lat))
    return lat


def _reference(lat, f, pv, x):
    """Piecewise linear through the data and the pole values, point by point."""
    lat, f = np.asarray(lat, float), np.asarray(f, float)
    nodes = [(-90., np.full(f.shape[1:], float(pv[1])))] + sorted(((float(l), f[k]) for k, l in enumerate(lat) if abs(l) < 90), key=lambda p: p[0]) + [(90., np.full(f.shape[1:], float(pv[0])))]
    out = []
    for t in np.atleast_1d(np.asarray(x, float)):
        for (a, fa), (b, fb) in zip(nodes[:-1], nodes[1:]):
            if a <= t <= b:
                out.append(fa + (fb - fa) * ((t - a) / (b - a)))
                break
    return np.array(out).reshape(np.shape(x) + f.shape[1:])


def interpolation(c):
    w = world(c, NLON_TINY + [24, 36], legfunc=False, truncate=0.)
    g = w.grid
    rng = c.rng
    lat = _latitudes(c, g)
    cols = pick(rng, [None, None, 1, 3, g.nlon, g.nlon])
    f = any_field(c, (len(lat), cols or 1), float(pick(rng, [1., 1e-4, 300.])))
    if cols is None:
        f = f[:, 0]
    pv = pick(rng, [(0., 0.), (0., 0.), (1.5, -2.7), (3, -1), (np.float64(.25), np.float32(7.5)), tuple(float(x) for x in rng.normal(size=2)), [2.5, .5], np.array([-.5, .125])])
    c.note(columns=cols, pole_values=str(pv))
    # linear: default, by name
    kw = pick(rng, [{}, {}, {"kind": "linear"}])
    s = (3e-6 if f.dtype == np.float32 else 1e-12) * (np.max(np.abs(np.asarray(f, float))) + np.max(np.abs(np.asarray(pv, float)))) * 10
    before = np.array(f), np.array(lat)
    fun = g.interp1d_meridional(f, lat, pv, **kw) if rng.random() < .5 else g.interp1d_meridional(field=f, lat=lat, pole_values=pv, **kw)
    got = g.interpolate_meridional(f, lat, pv, **kw) if rng.random() < .5 else g.interpolate_meridional(f, lat, pole_values=pv, **kw)
    if not c.check(np.shape(got) == (g.nlat,) + f.shape[1:], f"shape {np.shape(got)} of the interpolation"):
        return
    c.close(got, _reference(lat, f, pv, g.lat), "interpolation to the latitudes of the grid", atol=s)
    c.close(got[0], np.full(f.shape[1:], float(pv[0])), "value at the North Pole", atol=s * 1e-2)
    c.close(got[-1], np.full(f.shape[1:], float(pv[1])), "value at the South Pole", atol=s * 1e-2)
    c.close(fun(g.lat), got, "function of the interpolation", atol=s)
    inner = np.abs(lat) < 90
    c.close(fun(lat[inner]), np.asarray(f, float)[inner], "values at the input latitudes", atol=s)
    x = rng.uniform(-90, 90, pick(rng, [1, 7, 40]))
    c.close(fun(x), _reference(lat, f, pv, x), "interpolation to any latitudes", atol=s)
    c.close(fun(float(x[0])), _reference(lat, f, pv, float(x[0])), "interpolation to one latitude", atol=s)
    c.close(fun(np.array([90., -90.])), _reference(lat, f, pv, np.array([90., -90.])), "function at the poles", atol=s)
    for bad in (90.5, -91., 1e3):
        c.raises(lambda: fun(bad), f"latitude {bad} is beyond the poles")
    c.check(np.array_equal(before[0], f) and np.array_equal(before[1], lat), "inputs unchanged")
    # the function is independent of what happens to its inputs
    if f.flags.writeable and f.base is None:
        keep = fun(x)
        f[...] = 1; lat[...] = 0
        c.close(fun(x), keep, "the function does not follow its inputs", atol=0.)
    c.event("interpolations"); c.event("target latitudes", int(g.nlat + x.size))
    if not inner.all():
        c.event("inputs with poles")


def kinds(c):
    w = world(c, NLON_TINY + [24], legfunc=False, truncate=0.)
    g = w.grid
    kind = pick(c.rng, ["nearest", "nearest-up", "previous", "next", "cubic", "quadratic", "slinear", "zero", 0, 1, 2, 3])
    least = {"cubic": 2, 3: 2}.get(kind, 1)
    lat = np.unique(np.round(c.rng.uniform(-85, 85, int(pick(c.rng, [least, least + 1, 4, c.rng.integers(5, 20)]))), 2))[::pick(c.rng, [1, -1])]
    if lat.size < least:
        raise Stop()
    f = c.rng.normal(size=(len(lat),) + pick(c.rng, [(), (3,)]))
    pv = tuple(float(x) for x in c.rng.normal(size=2))
    c.note(interpolation=str(kind), n=len(lat))
    up = np.argsort(lat)
    ends = [np.full((1,) + f.shape[1:], v) for v in (pv[1], pv[0])]
    X, Y = np.concatenate([[-90.], lat[up], [90.]]), np.concatenate([ends[0], f[up], ends[1]])
    ref = scipy.interpolate.interp1d(X, Y, axis=0, kind=kind)
    t = np.array([x for x in c.rng.uniform(-89.9, 89.9, 30) if np.min(np.abs(x - .5 * (X[1:] + X[:-1]))) > 1e-6])
    s = 1e-9 * np.max(np.abs(ref(np.linspace(-90, 90, 200))))
    c.close(g.interp1d_meridional(f, lat, pv, kind=kind)(t), ref(t), f"{kind} interpolation", atol=s)
    if kind in ("cubic", "quadratic", "slinear", 1, 2, 3):
        c.close(g.interpolate_meridional(f, lat, pv, kind), ref(g.lat), f"{kind} interpolation to the grid", atol=s)
    c.event("other kinds")


def laws(c):
    """Linear, column by column, independent of the order and representation of the input."""
    w = world(c, NLON_TINY + [24, 36], legfunc=False, truncate=0.)
    g = w.grid
    lat = _latitudes(c, g).astype(float)
    f, h = c.rng.normal(size=(2, len(lat), 4))
    p = c.rng.permutation(len(lat))
    I = lambda f, lat=lat, pv=(1., -2.): np.asarray(g.interpolate_meridional(f, lat, pv), float)
    c.close(I(f[p], lat[p]), I(f), "order of the input does not matter", atol=1e-12)
    c.close(I(2.5 * f + h, pv=(4.5, -3.)), 2.5 * I(f) + I(h, pv=(2., 2.)), "linear", atol=1e-11)
    for k in range(4):
        c.close(I(f[:, k]), I(f)[:, k], "profile and column", atol=1e-12)
    c.close(I(f[::1, ::-1]), I(f)[:, ::-1], "columns are independent", atol=1e-12)
    c.check(np.all(I(f) <= max(f.max(), 1.) + 1e-12) and np.all(I(f) >= min(f.min(), -2.) - 1e-12), "no overshooting")
    c.close(I(np.array(g.lat) * .5, np.array(g.lat), (45., -45.)), np.array(g.lat) * .5, "interpolation to the same latitudes", atol=1e-12)
    same_for_representations(c, lambda x: g.interpolate_meridional(x, lat, (.5, .25)), [f], "interpolation", rtol=1e-6)
    same_for_representations(c, lambda x: g.interpolate_meridional(f, x, (.5, .25)), [lat], "interpolation (latitudes)", rtol=1e-9, kinds=["reversed", "strided", "readonly", "reused", "recycled"])
    c.event("laws")


def rejects(c):
    w = world(c, NLON_TINY, legfunc=False, truncate=0.)
    g = w.grid
    lat, f = np.linspace(60, -60, 7), np.ones((7, 3))
    bads = {"3d": lambda: g.interpolate_meridional(np.ones((7, 3, 2)), lat, (0, 0)), "0d": lambda: g.interpolate_meridional(np.array(1.), lat, (0, 0)),
            "length": lambda: g.interpolate_meridional(f[1:], lat, (0, 0)), "columns": lambda: g.interpolate_meridional(f.T, lat, (0, 0)),
            "one pole": lambda: g.interpolate_meridional(f, lat, (0.,)), "three poles": lambda: g.interpolate_meridional(f, lat, (0., 1., 2.)),
            "kind": lambda: g.interpolate_meridional(f, lat, (0, 0), kind="spline"), "no poles": lambda: g.interpolate_meridional(f, lat)}
    name = pick(c.rng, list(bads)); c.note(bad=name)
    c.raises(bads[name], f"interpolation refused: {name}")
    c.event("refusals")


CASES = [(interpolation, 120, 4000), (kinds, 30, 800), (laws, 30, 1000), (rejects, 10, 100)]
REQUIRED_EVENTS = {"interpolations": 200, "target latitudes": 2000, "inputs with poles": 40, "other kinds": 50, "laws": 50, "refusals": 20}
