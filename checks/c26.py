"""C26: export of states to datasets."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *
from checks.c12 import build, HOW

RULE = "a case is a planet, a collection of states (count, times, order), a container for it, a field specification and an index dimension; every value, dimension and label of the dataset is compared with the states"

SCALARS = {
    "max wind": lambda s: float(np.max(np.hypot(s.u, s.v))),
    "count": lambda s: int(np.count_nonzero(np.asarray(s.pv) > 0)),
    "f32 number": lambda s: np.float32(np.mean(s.energy)),
    "flag": lambda s: bool(np.max(s.v) > 0),
    "0d": lambda s: np.asarray(np.max(s.u)),
}
PROFILES = {
    "ubar": lambda s: np.mean(np.asarray(s.u), axis=1),
    "pvbar": lambda s: np.mean(np.asarray(s.pv, float), axis=bt.ZONAL),
    "vlon": lambda s: np.asarray(s.v).mean(axis=bt.MERIDIONAL),
    "equator": lambda s: np.asarray(s.u)[s.grid.nlat // 2],
    "pole": lambda s: s.pv[0],
}
FULL = {"speed": lambda s: np.hypot(s.u, s.v), "halved": lambda s: np.asarray(s.v) / 2, "sign": lambda s: (np.asarray(s.v) > 0), "ints": lambda s: np.rint(np.asarray(s.v) * 1000).astype(int)}
ATTRS = ["u", "v", "pv", "avo", "vo", "vorticity", "streamfunction", "energy", "enstrophy", "eddy_enstrophy", "time", "v_envelope_hilbert", "pv_zonalized", "fawa"]


def collection(c, w, n=None):
    """n states with all kinds of times."""
    g, ref = w.grid, w.ref
    n = int(pick(c.rng, [1, 1, 2, 3, 4, 7])) if n is None else n
    kind = pick(c.rng, ["float", "int", "np", "datetime", "repeated", "decreasing", "negative", "mixed", "repeated datetime", "microseconds", "old datetime"])
    t0 = dt.datetime(2020, 2, 28, 18) + dt.timedelta(hours=int(c.rng.integers(0, 200000)), seconds=int(c.rng.integers(0, 60)))
    if kind == "float":
        ts = [float(x) for x in c.rng.uniform(-1e6, 1e7, n)]
    elif kind == "int":
        ts = [int(x) for x in c.rng.integers(0, 10 ** 7, n)]
    elif kind == "np":
        ts = list(np.cumsum(c.rng.uniform(1, 1e5, n)))
    elif kind == "datetime":
        ts = [t0 + dt.timedelta(minutes=int(c.rng.integers(-10 ** 6, 10 ** 6))) for i in range(n)]
    elif kind == "microseconds":
        ts = [t0 + dt.timedelta(microseconds=int(c.rng.integers(-10 ** 12, 10 ** 12))) for i in range(n)]
    elif kind == "old datetime":
        ts = [dt.datetime(int(c.rng.integers(1680, 1970)), 3, 1, 6, 0, 1) + dt.timedelta(days=i) for i in range(n)]
    elif kind == "repeated datetime":
        ts = [t0 + dt.timedelta(hours=6 * (i // 2)) for i in range(n)]
    elif kind == "repeated":
        ts = [3600. * (i // 2) for i in range(n)]
    elif kind == "decreasing":
        ts = [86400. - 600 * i for i in range(n)]
    elif kind == "negative":
        ts = [-1800. * i for i in range(n)]
    else:
        ts = [(7 * i if i % 2 else 7. * i + .25) for i in range(n)]
    cs = [flow(c, w) for _ in range(n)]
    states = [build(g, ref, pick(c.rng, HOW[:4]), t, x, c.rng) for t, x in zip(ts, cs)]
    c.note(n=n, times=kind)
    return states, cs, ts


def containers(c, states):
    kind = pick(c.rng, ["list", "tuple", "StateList", "generator", "iter", "method", "map", "single" if len(states) == 1 else "list"])
    c.note(container=kind)
    if kind == "single":
        f = lambda **kw: bt.io.as_dataset(states[0], **kw)
    elif kind == "method":
        f = lambda **kw: bt.StateList(states).as_dataset(**kw)
    elif kind == "list":
        f = lambda **kw: bt.io.as_dataset(list(states), **kw)
    elif kind == "tuple":
        f = lambda **kw: bt.io.as_dataset(tuple(states), **kw)
    elif kind == "StateList":
        f = lambda **kw: bt.io.as_dataset(bt.StateList(states), **kw)
    elif kind == "generator":
        f = lambda **kw: bt.io.as_dataset((s for s in states), **kw)
    elif kind == "map":
        f = lambda **kw: bt.io.as_dataset(map(lambda s: s, states), **kw)
    else:
        f = lambda **kw: bt.io.as_dataset(iter(states), **kw)
    return f


def same_times(c, got, want, msg):
    got = np.asarray(got)
    if isinstance(want[0], dt.datetime):
        ok = got.dtype.kind == "M" and got.shape == (len(want),) and all(np.datetime64(t) == x for t, x in zip(want, got))
    else:
        ok = got.shape == (len(want),) and all(float(t) == float(x) for t, x in zip(want, got))
    c.check(ok, f"{msg}: got {got.tolist()[:5]}, expected {[str(t) for t in want][:5]}")


def fields_spec(c, g):
    """A field specification together with name -> function of a state."""
    rng = c.rng
    kind = pick(rng, ["default", "name", "list", "tuple", "generator", "mapping", "mapping", "mapping", "mapping"])
    attrs = ATTRS if g.nlon >= 16 else ATTRS[:11]
    get = lambda a: (lambda s: getattr(s, a))
    if kind == "default":
        return None, {"u": get("u"), "v": get("v")}, kind
    if kind == "name":
        a = pick(rng, [a for a in attrs if a != "time"])
        return a, {a: get(a)}, kind
    names = [str(x) for x in rng.permutation([a for a in attrs if a != "time"])[:int(rng.integers(1, 6))]]
    if kind in ("list", "tuple", "generator"):
        return ({"list": list, "tuple": tuple, "generator": iter}[kind](names)), {a: get(a) for a in names}, kind
    spec, want = {}, {}
    pool = [(k, f) for d in (SCALARS, PROFILES, FULL) for k, f in d.items() if k != "0d"] + [(a, a) for a in attrs if a != "time"]
    for i in rng.permutation(len(pool))[:int(rng.integers(1, 7))]:
        k, f = pool[int(i)]
        name = pick(rng, [k, k, f"field {i}", "u", "lat", "number", "index"])
        if isinstance(f, str) and rng.random() < .3:
            a = f
            f = get(a)
        spec[name] = f
        want[name] = get(f) if isinstance(f, str) else f
    return spec, want, kind


def exports(c):
    w = world(c, NLON_SMALL + [14, 22, 26])
    g = w.grid
    states, cs, ts = collection(c, w)
    export = containers(c, states)
    spec, want, skind = fields_spec(c, g)
    dim = pick(c.rng, ["time", "time", "time", "member", "run", "index", "count", "fancy dim", "map", "step", "t", "x", "lev", "time_index", "k", "ensemble", "latitude_", "date", "number" + str(int(c.rng.integers(10)))])
    kw = {}
    if spec is not None:
        kw["fields"] = spec
    if dim != "time" or c.rng.random() < .3:
        kw["concat_dim"] = dim
    if dim in want: # name used twice
        return
    c.note(spec=skind, dim=dim, fields=sorted(want))
    n = len(states)
    ok, ds = c.works(lambda: export(**kw), "export")
    if not ok:
        return
    c.equal(sorted(map(str, ds.data_vars)), sorted(want), "fields of the dataset")
    c.check(tuple(ds["latitude"].dims) == ("latitude",) and np.array_equal(np.asarray(ds["latitude"].values), np.asarray(g.lat)), "latitude coordinate")
    c.check(tuple(ds["longitude"].dims) == ("longitude",) and np.array_equal(np.asarray(ds["longitude"].values), np.asarray(g.lon)), "longitude coordinate")
    same_times(c, ds["time"].values, ts, "time coordinate")
    c.equal((ds["latitude"].attrs.get("units"), ds["longitude"].attrs.get("units")), ("degrees_north", "degrees_east"), "units of the horizontal coordinates")
    c.equal(ds["time"].attrs.get("units"), "s" if ds["time"].dtype.kind in "iuf" else None, f"unit of the time coordinate ({ds['time'].dtype})")
    c.check(bt.__version__ in str(ds.attrs.get("package")), f"dataset names the package and its version: {ds.attrs}")
    if dim != "time":
        c.check(dim in ds.coords and ds[dim].dims == (dim,) and np.array_equal(ds[dim].values, np.arange(n)), "consecutive integers label an index dimension without attribute")
    for name, f in want.items():
        if name not in ds.data_vars:
            continue
        vals = [np.asarray(f(s)) for s in states]
        shape = vals[0].shape
        dims = {g.shape: ("latitude", "longitude"), (g.nlat,): ("latitude",), (g.nlon,): ("longitude",), (): ()}[shape]
        c.equal(tuple(ds[name].dims), (dim, *dims), f"dimensions of {name}")
        c.close(ds[name].values, np.stack(vals).astype(float), f"values of {name}", rtol=1e-6)
        c.event("fields")
    # selecting by label gives the field of that state
    k = int(c.rng.integers(n))
    name = next(iter(want))
    if name in ds.data_vars:
        c.close(ds[name].isel({dim: k}).values, np.asarray(want[name](states[k]), float), "selection by index", rtol=1e-6)
    c.event("exports")
    for s, x, t in zip(states, cs, ts):
        c.check(s.time is t or s.time == t, "states are not changed")


def attribute_index(c):
    """An index dimension named like an attribute of the states is labelled by it."""
    w = world(c, NLON_SMALL)
    states, _, ts = collection(c, w)
    vals = [pick(c.rng, [1., 2.5, 7]) * (k + 1) for k in range(len(states))]
    kind = pick(c.rng, ["float", "int", "str"])
    if kind == "int":
        vals = [int(v) * 3 for v in vals]
    elif kind == "str":
        vals = [f"run {k}" for k in range(len(states))]
    for s, x in zip(states, vals):
        s.label = x
    partial = c.rng.random() < .3 and len(states) > 1
    if partial:
        del states[-1].label
    c.note(label=kind, partial=bool(partial))
    export = containers(c, states)
    ds = export(fields=["u", "pv"], concat_dim="label")
    want = list(range(len(states))) if partial else vals
    c.equal(ds["label"].dims, ("label",), "dimension of the index coordinate")
    c.check([x for x in ds["label"].values.tolist()] == want, f"labels {ds['label'].values.tolist()} expected {want}")
    same_times(c, ds["time"].values, ts, "time coordinate")
    for f in ("u", "pv"):
        c.equal(tuple(ds[f].dims), ("label", "latitude", "longitude"), f"dimensions of {f}")
        c.close(ds[f].values, np.stack([getattr(s, f) for s in states]), f"values of {f}", rtol=1e-6)
    c.event("attribute labels")


def nothing(c):
    import xarray as xr
    kind = pick(c.rng, ["list", "tuple", "StateList", "iter", "generator", "method", "map"])
    c.note(container=kind, i=c.index)
    e = {"list": [], "tuple": (), "StateList": bt.StateList([]), "iter": iter([]), "generator": (s for s in []), "map": map(str, [])}
    kw = pick(c.rng, [{}, {"fields": "u"}, {"fields": {"a": lambda s: 1 / 0}}, {"concat_dim": "run"}])
    ok, ds = c.works(lambda: bt.StateList([]).as_dataset(**kw) if kind == "method" else bt.io.as_dataset(e[kind], **kw), f"export of an empty {kind}")
    if ok:
        c.check(isinstance(ds, xr.Dataset) and len(ds.data_vars) == 0, "dataset without fields")
    c.event("empty exports")


def mixed_grids(c):
    w = world(c, NLON_SMALL, truncate=0, legfunc=False)
    g = w.grid
    change = pick(c.rng, ["resolution", "radius", "rotation"])
    c.note(change=change)
    kw = dict(resolution=360 / g.nlon, rsphere=w.ref.r, omega=w.ref.omega)
    if change == "resolution":
        kw["resolution"] = 360 / (g.nlon + 4)
    elif change == "radius":
        kw["rsphere"] = w.ref.r * 1.5
    else:
        kw["omega"] = w.ref.omega * 2 if w.ref.omega != 0 else 1e-4
    h = bt.Grid(**kw)
    ss = [bt.init.motionless(g, 0), bt.init.motionless(g, 1)]
    ss.insert(int(c.rng.integers(3)), bt.init.motionless(h, 2))
    c.raises(lambda: bt.io.as_dataset(ss), "states on different grids")
    c.raises(lambda: bt.io.as_dataset(iter(ss), "pv"), "states on different grids (iterator)")
    # a grid made again with the same settings is the same grid
    kw2 = dict(resolution=360 / g.nlon, rsphere=w.ref.r, omega=w.ref.omega)
    ok, ds = c.works(lambda: bt.io.as_dataset([bt.init.motionless(g, 0), bt.init.motionless(bt.Grid(**kw2), 1)]), "states on equal grids")
    c.event("refusals")


CASES = [(exports, 60, 2500), (attribute_index, 20, 600), (nothing, 14, 60), (mixed_grids, 12, 150)]
REQUIRED_EVENTS = {"exports": 30, "fields": 100, "attribute labels": 15, "empty exports": 10, "refusals": 10}
