"""C09: equivalent latitude and zonalization."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from checks.c07 import meridional

RULE = "a case is a grid or sector, a field, contour levels and a scheme; expectation from areas measured by a reference quadrature"


def cap(lat, r):
    return 2 * np.pi * r * r * (1 - np.sin(np.deg2rad(np.asarray(lat, float))))


def area_above(nlon, r, field, q, method):
    """Globe-equivalent area where the field is at or above q."""
    one = np.ones(field.shape)
    a = r * 2 * np.pi / nlon * np.sum(meridional(nlon, r, one, field - q, method))
    return a * nlon / field.shape[1]


def profile_band(lat, q, y, qmin, qmax, tol=1e-6):
    """Bounds of the piecewise-linear profile through the contours with the extremes at the poles.

    Contours with the same equivalent latitude may count in any order, so the bounds differ next to them."""
    lat = np.asarray(lat, float)
    inner = np.abs(y) < 90.
    q, y = np.asarray(q, float)[inner], np.asarray(y, float)[inner]
    o = np.argsort(y, kind="stable")
    y, q = np.concatenate([[-90.], y[o], [90.]]), np.concatenate([[qmin], q[o], [qmax]])
    group = np.concatenate([[0], np.cumsum(np.diff(y) > tol)])
    lows, highs, south, north = (np.array([f(v[group == k]) for k in range(group[-1] + 1)]) for f, v in ((np.min, q), (np.max, q), (np.min, y), (np.max, y)))
    low, high = np.interp(lat, y, q), np.interp(lat, y, q)
    for i, at in enumerate(lat):
        hit = np.flatnonzero((south - 10 * tol <= at) & (at <= north + 10 * tol))
        if hit.size: # on contours
            if np.any(np.ptp(np.stack([lows, highs])[:, hit], axis=0) > 0) or hit.size > 1:
                low[i], high[i] = min(low[i], np.min(lows[hit])), max(high[i], np.max(highs[hit]))
            continue
        k = np.searchsorted(south, at) - 1
        t = (at - north[k]) / (south[k + 1] - north[k])
        low[i], high[i] = min(low[i], (1 - t) * lows[k] + t * lows[k + 1]), max(high[i], (1 - t) * highs[k] + t * highs[k + 1])
    return low, high


def _pv_like(c, w, shape):
    kind = pick(c.rng, ["state", "state", "any", "steps32", "reversed"])
    c.note(pv=kind)
    if kind == "any":
        return any_field(c, shape, float(pick(c.rng, [1., 1e-4, 100.])))
    f = w.ref.synth(flow(c, w) + w.ref.c_fcor())[:, :shape[1]]
    if kind == "steps32":
        f = np.round(f / (np.max(np.abs(f)) + 1e-30), 1).astype(np.float32)
    if kind == "reversed":
        f = -f
    return f


def _setup(c):
    w = world(c, NLON_TINY, truncate=0., legfunc=False)
    g = w.grid
    ncol = g.nlon if c.rng.random() < .65 else int(c.rng.integers(1, g.nlon))
    c.note(columns=ncol)
    return w, g, (g.nlat, ncol)


def zonalization(c):
    w, g, shape = _setup(c)
    r = w.ref.r
    f = _pv_like(c, w, shape)
    lo, hi = float(np.min(f)), float(np.max(f))
    method = pick(c.rng, ["sptrapz", "sptrapz", "boxcount"])
    kind = pick(c.rng, ["default", "default", "int", "npint", "array", "array outside", "unsorted", "integers"])
    if kind == "integers" and not 3 < hi - lo < 1e9:
        kind = "array"
    c.note(method=method, levels_kind=kind)
    levels = {"default": None, "int": int(c.rng.integers(1, 30)), "npint": np.int64(c.rng.integers(1, 12)),
              "array": np.sort(c.rng.uniform(lo, hi, 7)), "array outside": np.linspace(lo - .3 * (hi - lo) - 1e-9, hi + .2 * (hi - lo) + 1e-9, 9),
              "integers": np.unique(np.linspace(lo, hi, 9)[1:-1].astype(int)) if kind == "integers" else None,
              "unsorted": c.rng.permutation(np.linspace(lo, hi, 11)[1:-1])}[kind]
    kw = {} if levels is None else {"levels": levels}
    if method != "sptrapz" or c.rng.random() < .3:
        kw["quad"] = method
    q, y = g.zonalize(f, interpolate=False, **kw)
    q, y = np.asarray(q), np.asarray(y)
    if not c.check(q.ndim == 1 and q.shape == y.shape, "one latitude per contour"):
        return
    eps = (2e-5 if f.dtype == np.float32 else 1e-9)
    if levels is None:
        c.check(q.size in (g.nlat, 2 * g.nlat) and q.size == g.nlat * (2 if method == "boxcount" else 1), f"number of default contours is {q.size}")
    elif kind in ("int", "npint"):
        c.equal(q.size, int(levels), "number of contours")
    else:
        c.close(q, levels, "contours as given", rtol=1e-12)
    if not isinstance(levels, np.ndarray):
        c.check(np.all(q >= lo - eps * (abs(lo) + hi - lo)) and np.all(q <= hi + eps * (abs(hi) + hi - lo)), "contours lie inside the range of the field")
    want = np.array([area_above(w.ref.nlon, r, f, x, method) for x in q])
    # contours that coincide with many gridpoint values are decided by rounding
    edgy = np.array([np.any(np.abs(np.asarray(f, float) - float(x)) <= 1e-6 * (abs(hi - lo) + abs(x)) * (1 if f.dtype == np.float32 else 1e-6)) for x in q])
    if isinstance(levels, np.ndarray) or f.dtype != np.float32:
        edgy &= (hi == lo) | (f.dtype == np.float32) | (method == "boxcount")
    keep = ~edgy
    c.close(cap(y, r)[keep], want[keep], f"area of the polar cap inside the equivalent latitude ({method})", atol=eps * 4 * np.pi * r * r)
    c.check(np.all(np.abs(y) <= 90. + 1e-9), "equivalent latitudes within the globe")
    o = np.argsort(q, kind="stable")
    c.check(np.all(np.diff(np.sin(np.deg2rad(y[o]))) >= -10 * eps), "higher contours enclose less area")
    c.event("contours", int(keep.sum()))
    # Interpolated profile
    p = g.zonalize(f, **kw)
    if not c.check(isinstance(p, np.ndarray) and p.shape == (g.nlat,), "profile on the grid's latitudes"):
        return
    low, high = profile_band(np.asarray(w.ref.lat), q, y, lo, hi)
    low[[0, -1]] = high[[0, -1]] = hi, lo
    slack = 1e-6 * (hi - lo) + 1e-13 * (abs(lo) + abs(hi)) if f.dtype != np.float32 else 1e-4 * (hi - lo) + 1e-6 * (abs(lo) + abs(hi))
    c.close(p, np.clip(p, low, high), f"interpolated profile ({method})", atol=slack)
    ok = high - low <= slack
    c.event("profile values decided", int(ok.sum()))
    c.check(np.all(np.isfinite(p)), "profile is finite")
    s = 1e-6 * (hi - lo) + 1e-6 * eps * (abs(lo) + abs(hi))
    if kind != "array outside":
        c.check(np.all(p >= lo - s) and np.all(p <= hi + s), "profile within the range of the field", lo=lo, hi=hi, profile=p)
    c.close([p[0], p[-1]], [hi, lo], "extremes at the poles", atol=s)
    if kind in ("default", "int", "npint"):
        c.check(np.all(np.diff(p) <= s), "profile does not increase southward", profile=p)
    # shift in longitude
    k = int(c.rng.integers(shape[1]))
    c.close(np.asarray(g.zonalize(np.roll(f, k, axis=1), **kw))[ok], p[ok], "profile does not depend on longitude", atol=1e-6 * (hi - lo) + 1e-6 * (abs(lo) + abs(hi)) * (f.dtype == np.float32) + 1e-13 * (abs(lo) + abs(hi)))
    c.event("profiles " + method)


def zonal_profiles(c):
    """Profiles that increase northward are reproduced."""
    w, g, shape = _setup(c)
    d = -np.cumsum(c.rng.uniform(.05, 1., g.nlat)) * float(pick(c.rng, [1., 1e-5]))
    d = d + float(pick(c.rng, [0., 1., -3.])) * abs(d[-1])
    f = np.repeat(d[:, None], shape[1], axis=1)
    rng_ = d[0] - d[-1]
    if c.rng.random() < .5:
        p = g.zonalize(f, levels=d[1:-1])
        c.close(p, d, "profile with its own values as contours", atol=1e-9 * rng_)
        q, y = g.zonalize(f, levels=d[1:-1], interpolate=False)
        c.close(y, g.lat[1:-1], "equivalent latitudes of its own values", atol=1e-6)
        q, y = g.zonalize(f, levels=d[1:-1] - 1e-9 * rng_, interpolate=False, quad="boxcount")
        c.close(y, w.ref.lat[1:-1] - 90. / (g.nlat - 1), "boxcount: southern edges of the gridpoint cells", atol=1e-5)
    else:
        n = int(c.rng.integers(5, 60))
        p = g.zonalize(f, levels=n)
        q, _ = g.zonalize(f, levels=n, interpolate=False)
        k = np.concatenate([[d[-1]], np.sort(q), [d[0]]])
        for j in range(g.nlat):
            a = np.searchsorted(k, d[j] + 1e-9 * rng_, side="right") - 1
            lo, hi = k[max(a - 1, 0) if abs(k[a] - d[j]) < 1e-8 * rng_ else a], k[min(a + 1, len(k) - 1)]
            c.check(lo - 1e-8 * rng_ <= p[j] <= hi + 1e-8 * rng_, f"value between the contours around it (row {j})", got=p[j], lo=lo, hi=hi)
    c.event("symmetric profiles")


def equivalent_latitude(c):
    w = world(c, NLON_TINY, truncate=0., legfunc=False)
    g, r = w.grid, w.ref.r
    total = 4 * np.pi * r * r
    lat = c.rng.uniform(-90, 90, int(c.rng.integers(1, 12)))
    form = pick(c.rng, ["float", "np.float64", "0d", "1d", "2d", "int", "f32"])
    c.note(form=form, n=len(lat))
    area = cap(lat, r)
    back = lambda y: np.sin(np.deg2rad(np.asarray(y, float)))
    if form == "float":
        c.close(back(g.equivalent_latitude(float(area[0]))), back(lat[0]), "scalar area", atol=1e-12)
    elif form == "np.float64":
        c.close(back(g.equivalent_latitude(np.float64(area[0]))), back(lat[0]), "numpy scalar area", atol=1e-12)
    elif form == "0d":
        c.close(back(g.equivalent_latitude(np.array(area[0]))), back(lat[0]), "0d area", atol=1e-12)
    elif form == "1d":
        c.close(back(g.equivalent_latitude(area)), back(lat), "1d area", atol=1e-12)
    elif form == "2d":
        a = np.stack([area, area[::-1]])
        c.close(back(g.equivalent_latitude(a)), back(np.stack([lat, lat[::-1]])), "2d area", atol=1e-12)
    elif form == "int":
        a = int(area[0])
        c.close(back(g.equivalent_latitude(a)), 1 - a / (2 * np.pi * r * r), "integer area", atol=1e-12)
    else:
        c.close(back(g.equivalent_latitude(area.astype(np.float32))), back(lat), "single precision area", atol=1e-6)
    edge = np.array([0., total, -.5 * total, 1.7 * total, -1e-9 * total, total * (1 + 1e-12)])
    want = np.array([90., -90., 90., -90., 90., -90.])
    c.close(g.equivalent_latitude(edge), want, "poles and beyond", atol=1e-4)
    i = int(c.rng.integers(len(edge)))
    c.close(g.equivalent_latitude(float(edge[i])), want[i], "poles and beyond (scalar)", atol=1e-4)
    c.check(np.all(edge == np.array([0., total, -.5 * total, 1.7 * total, -1e-9 * total, total * (1 + 1e-12)])), "input areas are left alone")
    # the area north of a latitude on the grid, measured by the grid itself
    j = int(c.rng.integers(1, g.nlat - 1))
    a = g.quad(np.ones(g.shape), g.lat2 - g.lat[j])
    c.close(g.equivalent_latitude(a), g.lat[j], "area measured by quadrature", atol=1e-5)
    c.event("equivalent latitudes")


def states(c):
    w = world(c, NLON_TINY)
    s = bt.State(w.grid, 0., pv=w.ref.synth(flow(c, w) + w.ref.c_fcor()))
    p = w.grid.zonalize(s.pv)
    d = np.max(p) - np.min(p)
    c.close(s.pv_zonalized, p, "State.pv_zonalized", atol=1e-6 * d)
    want = np.array([area_above(w.ref.nlon, w.ref.r, s.pv, x, "sptrapz") for x in s.pv_zonalized[2:-2]])
    # the profile inverts the area function up to the resolution of its contours
    dl = 180. / (w.grid.nlat - 1)
    y = np.rad2deg(np.arcsin(np.clip(1 - want / (2 * np.pi * w.ref.r ** 2), -1, 1)))
    c.check(np.all(np.abs(y - w.grid.lat[2:-2]) < 3 * dl + 10), "profile encloses about the area north of its latitude", y=y, lat=w.grid.lat[2:-2])
    c.event("states")


def array_kinds(c):
    w = world(c, NLON_SMALL[:6], legfunc=False, truncate=0.)
    g = w.grid
    f = any_field(c, (g.nlat, pick(c.rng, [g.nlon, g.nlon, 5])))
    q = pick(c.rng, ["sptrapz", "boxcount"])
    lev = pick(c.rng, [None, 7, np.linspace(np.min(f) - .1, np.max(f) + .1, 6)[::-1].copy()])
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "broadcast", "reused", "recycled", "mixed"]
    same_for_representations(c, lambda x: (g.zonalize(x, lev, False, q), g.zonalize(x, lev, quad=q) if lev is None else 0.), [f], f"zonalize {q}", rtol=1e-6, kinds=kinds, n=2)
    c.event("array kinds")


CASES = [(array_kinds, 20, 500), (zonalization, 70, 2500), (zonal_profiles, 40, 1200), (equivalent_latitude, 60, 1500), (states, 10, 200)]
REQUIRED_EVENTS = {"profile values decided": 300, "contours": 400, "profiles sptrapz": 20, "profiles boxcount": 8, "symmetric profiles": 20, "equivalent latitudes": 30}
