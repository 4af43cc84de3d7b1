"""C27: import of datasets."""
import contextlib, datetime as dt, os, time as _time
import numpy as np, barotropic as bt
from lib.gen import *
from checks.c26 import collection

RULE = "a case is a planet, a dataset (representation, names, extra dimensions with labels, coordinate precision, time type, distractors) or a defective dataset; every imported state is compared with the float64 reference flow at its place in row-major order"
TOL = 6e-5

NAMES = {
    "lon": ["longitude", "lon"], "lat": ["latitude", "lat"], "time": ["time"],
    "u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"],
    "vo": ["vo", "relv", "vorticity", "relative_vorticity"], "avo": ["avo", "absv", "absolute_vorticity", "pv"],
}


@contextlib.contextmanager
def timezone(name):
    """The machine's timezone must not matter."""
    old = os.environ.get("TZ")
    os.environ["TZ"] = name
    _time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        _time.tzset()


def _coords(c, nlon, dtype=None):
    dtype = pick(c.rng, [np.float64, np.float64, np.float32]) if dtype is None else dtype
    lon = np.arange(nlon) * 360. / nlon
    nlat = nlon // 2 + 1
    lat = 90. - np.arange(nlat) * 180. / (nlat - 1)
    k = c.rng.random()
    if k < .3:
        lon, lat = np.linspace(0, 360, nlon, endpoint=False), np.linspace(90, -90, nlat)
    if dtype == np.float64 and (360 / nlon).is_integer() and c.rng.random() < .2:
        dtype = int
    r = c.rng.random()
    if dtype == np.float64 and r < .15:
        lon, lat = lon.round(5), lat.round(5)
        c.note(rounded=5)
    elif dtype == np.float64 and r < .35: # an inaccurate first longitude or pole
        lon, lat = lon + float(c.rng.uniform(-2e-5, 2e-5)), lat + float(c.rng.uniform(-2e-5, 2e-5))
        c.note(offset=True)
    c.note(coords=np.dtype(dtype).name)
    return lon.astype(dtype), lat.astype(dtype)


def _time_labels(c, n):
    """(labels, expected State.time)"""
    kind = pick(c.rng, ["float", "int", "f32", "datetime", "datetime s", "repeated", "repeated datetime", "decreasing", "early", "microseconds", "milliseconds"])
    t0 = np.datetime64("1979-01-01T00:00:00") + np.timedelta64(int(c.rng.integers(0, 10 ** 9)), "s")
    if kind == "float":
        t = np.sort(c.rng.uniform(0, 1e6, n)).round(2)
    elif kind == "int":
        t = c.rng.integers(-1000, 10 ** 6, n)
    elif kind == "f32":
        t = (np.arange(n) * 21600.).astype(np.float32)
    elif kind == "repeated":
        t = 600. * (np.arange(n) // 2)
    elif kind == "decreasing":
        t = 1000. - 10. * np.arange(n)
    elif kind == "datetime s":
        t = (t0 + np.arange(n) * np.timedelta64(6, "h")).astype("datetime64[s]")
    elif kind == "repeated datetime":
        t = (t0 + (np.arange(n) // 2) * np.timedelta64(6, "h")).astype("datetime64[ns]")
    elif kind == "microseconds":
        t = (t0.astype("datetime64[us]") + c.rng.integers(-10 ** 14, 10 ** 14, n)).astype("datetime64[ns]")
    elif kind == "milliseconds":
        t = (t0.astype("datetime64[ms]") + 250 * np.arange(n) + 125).astype(pick(c.rng, ["datetime64[ms]", "datetime64[us]", "datetime64[ns]"]))
    elif kind == "early":
        t = (np.datetime64("1850-06-01T12:00:00") + np.arange(n) * np.timedelta64(1, "h")).astype("datetime64[ns]")
    else:
        t = (t0 + c.rng.integers(-10 ** 6, 10 ** 6, n) * np.timedelta64(60, "s")).astype("datetime64[ns]")
    c.note(time=kind)
    if t.dtype.kind == "M":
        want = [dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=int(x.astype("datetime64[us]").astype(int))) for x in t]
    else:
        want = [float(x) for x in t]
    return t, want


def _check_time(c, got, want, msg):
    if isinstance(want, dt.datetime):
        c.check(isinstance(got, dt.datetime) and got == want and got.tzinfo is None, f"{msg}: got {got!r}, expected {want!r}")
    else:
        import numbers
        c.check(isinstance(got, numbers.Number) and not isinstance(got, dt.datetime) and float(got) == float(want), f"{msg}: got {got!r}, expected {want!r}")
    ok, r = c.works(lambda: repr(got), "text of the time")


def _verify(c, s, ref, c_vo, q, msg):
    # the flow of a state made from vorticity is compared with all fields
    u, v = ref.wind(c_vo)
    c.close(s.vorticity, ref.synth(c_vo), f"{msg}: vorticity", atol=TOL * q)
    c.close(s.pv, ref.synth(c_vo) + ref.f2, f"{msg}: pv", atol=TOL * q)
    c.close(s.u, u, f"{msg}: u", atol=TOL * q * ref.r)
    c.close(s.v, v, f"{msg}: v", atol=TOL * q * ref.r)


def imports(c):
    import xarray as xr
    nlon = int(pick(c.rng, NLON_SMALL + [14, 22, 26, 34, 38]))
    r, om = float(pick(c.rng, RADII)), float(pick(c.rng, OMEGAS))
    ref = RefSphere(nlon, r, om)
    rep = pick(c.rng, ["wind", "vo", "avo"])
    lon, lat = _coords(c, nlon)
    # other dimensions
    ndim = int(pick(c.rng, [0, 1, 1, 2, 2, 3]))
    dnames = [str(x) for x in c.rng.permutation(["time", "member", "level", "step"])[:ndim]]
    sizes = [int(pick(c.rng, [1, 2, 3, 4])) for _ in range(ndim)]
    labels, times_want = {}, None
    for d, n in zip(dnames, sizes):
        if d == "time":
            labels[d], tw = _time_labels(c, n)
        else:
            k = c.rng.random()
            labels[d] = None if k < .25 else pick(c.rng, [np.arange(n), c.rng.integers(0, 3, n), np.array([f"m{i % 2}" for i in range(n)]), np.linspace(5, 1, n), np.zeros(n)])
    override = {}
    def name(key):
        if c.rng.random() < .25:
            override[key] = pick(c.rng, [f"my_{key}", key.upper(), f"{key} field"])
            return override[key]
        return pick(c.rng, NAMES[key])
    nm = {k: name(k) for k in ("lon", "lat")}
    reps = {"wind": ["u", "v"], "vo": ["vo"], "avo": ["avo"]}
    for k in reps[rep]:
        nm[k] = name(k)
    tname = "time"
    if "time" in dnames:
        tname = name("time") if c.rng.random() < .3 else "time"
    real = [tname if d == "time" else d for d in dnames]
    dims = (*real, nm["lat"], nm["lon"])
    count = int(np.prod(sizes)) if sizes else 1
    flows = [ref.random(c.rng, ref.nmax, 1, 1., vort_scale(ref)) for _ in range(count)]
    q = max(np.max(np.abs(ref.synth(x))) for x in flows) + 2 * abs(om)
    shape = (*sizes, *ref.shape)
    dtype = pick(c.rng, [np.float64, np.float64, np.float32])
    def stack(f):
        return np.stack([f(x) for x in flows]).reshape(shape).astype(dtype)
    data = {}
    if rep == "wind":
        data[nm["u"]] = (dims, stack(lambda x: ref.wind(x)[0]))
        data[nm["v"]] = (dims, stack(lambda x: ref.wind(x)[1]))
    elif rep == "vo":
        data[nm["vo"]] = (dims, stack(ref.synth))
    else:
        data[nm["avo"]] = (dims, stack(lambda x: ref.synth(x) + ref.f2))
    # fields of lower priority must be ignored, also single wind components
    junk = []
    if rep == "wind":
        junk = ["vo", "avo"]
    elif rep == "vo":
        junk = ["avo", pick(c.rng, ["u", "v"])]
    else:
        junk = [pick(c.rng, ["u", "v"])]
    for k in junk:
        r_ = c.rng.random()
        if r_ < .2: # a name override does not change the order of priority
            override[k] = f"other_{k}"
            data[f"other_{k}"] = (dims, np.full(shape, 12345.))
        elif r_ < .55:
            data[NAMES[k][int(c.rng.integers(len(NAMES[k])))]] = (dims, np.full(shape, 12345.))
    if c.rng.random() < .3:
        data["t2m"] = (dims, np.full(shape, 280.))
    if c.rng.random() < .2:
        data["orography"] = (dims[-2:], np.zeros(ref.shape))
    # a name of lower rank within the same list must be ignored
    for k in reps[rep]:
        if nm[k] in NAMES[k]:
            j = NAMES[k].index(nm[k])
            if j + 1 < len(NAMES[k]) and c.rng.random() < .4:
                data[NAMES[k][-1]] = (dims, np.full(shape, -777.))
        elif c.rng.random() < .4:
            data[NAMES[k][0]] = (dims, np.full(shape, -777.)) # name override goes first
    coords = {nm["lon"]: (nm["lon"], lon), nm["lat"]: (nm["lat"], lat)}
    for d, d_real in zip(dnames, real):
        if labels[d] is not None:
            coords[d_real] = (d_real, labels[d])
    fill = pick(c.rng, [None, 0, 7.5, dt.datetime(2000, 1, 1)])
    tmode = "dim" if "time" in dnames else pick(c.rng, ["none", "none", "scalar", "2d" if ndim >= 1 else "scalar"])
    scalar_want = None
    if tmode == "scalar":
        t, tw = _time_labels(c, 1)
        coords["time"] = ((), t[0]); scalar_want = tw[0]
    elif tmode == "2d": # time that depends on the other dimensions
        t, tw = _time_labels(c, count)
        coords["time"] = (tuple(real), t.reshape(sizes))
    if tname != "time":
        override["time"] = tname
    ds = xr.Dataset(data, coords)
    if c.rng.random() < .2: # order of variables is irrelevant
        ds = ds[list(reversed(list(ds.data_vars)))]
    form = "dataset"
    if rep != "wind" and len(data) == 1 and c.rng.random() < .7:
        ds = ds[list(ds.data_vars)[0]]; form = "array"
    ntrunc = None
    kw = dict(rsphere=r, omega=om)
    if c.rng.random() < .2:
        ntrunc = kw["ntrunc"] = ref.nlat - 1
    tz = pick(c.rng, ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "XYZ5"])
    c.note(nlon=nlon, r=r, omega=om, rep=rep, dims=dict(zip(real, sizes)), names=override, form=form, dtype=np.dtype(dtype).name, tmode=tmode, tz=tz,
           labels={k: (None if v is None else [str(x) for x in v]) for k, v in labels.items() if k != "time"})
    args = dict(grid_kwargs=kw)
    if override:
        args["names"] = override
    if fill is not None:
        args["time_fill"] = fill
    before = ds.copy(deep=True)
    with timezone(tz):
        ok, out = c.works(lambda: bt.io.from_dataset(ds, **args), f"import of {rep} {dims}")
    if not ok:
        return
    c.check(before.identical(ds), "dataset is not changed")
    c.check(isinstance(out, bt.StateList), f"a collection of states: {type(out)}")
    if not c.equal(len(out), count, "number of states"):
        return
    g = out[0].grid
    c.equal((g.nlon, g.nlat), (nlon, ref.nlat), "grid size")
    c.close(g.lon, ref.lon, "grid longitudes", atol=1e-9)
    c.close(g.lat, ref.lat, "grid latitudes", atol=1e-9)
    c.check(g.rsphere == r and g.omega == om, "planet of the grid")
    for i, s in enumerate(out):
        c.check(s.grid == g, "one grid")
        _verify(c, s, ref, flows[i], q, f"state {i} of {count}")
        idx = np.unravel_index(i, sizes) if sizes else ()
        if tmode == "dim":
            want = tw[idx[dnames.index("time")]]
        elif tmode == "scalar":
            want = scalar_want
        elif tmode == "2d":
            want = tw[i]
        else:
            want = 0 if fill is None else fill
        _check_time(c, s.time, want, f"time of state {i}")
        c.event("imported states")
    c.event("imports")


def round_trip(c):
    """Export and import again."""
    w = world(c, NLON_SMALL + [14, 22, 26], truncate=0.)
    states, cs, ts = collection(c, w)
    ref = w.ref
    q = max(np.max(np.abs(ref.synth(x))) for x in cs) + 2 * abs(ref.omega)
    fields = pick(c.rng, [None, "pv", "avo", "vo", "vorticity", ["u", "v"], ["v", "u", "pv"], ["avo", "vo"], {"relv": "vo"}, {"eastward_wind": "u", "northward_wind": "v"}])
    c.note(fields=str(fields))
    kw = {} if fields is None else {"fields": fields}
    ds = bt.io.as_dataset(states, **kw)
    with timezone(pick(c.rng, ["UTC", "Europe/Berlin", "Asia/Tokyo"])):
        ok, back = c.works(lambda: bt.io.from_dataset(ds, grid_kwargs=dict(rsphere=ref.r, omega=ref.omega)), "import of an export")
    if not ok or not c.equal(len(back), len(states), "number of states"):
        return
    for s, b, x, t in zip(states, back, cs, ts):
        _check_time(c, b.time, t, "time")
        for f in ("u", "v", "pv"):
            c.close(getattr(b, f), getattr(s, f), f"{f} after export and import", atol=TOL * q * (1 if f == "pv" else ref.r))
        _verify(c, b, ref, x, q, "imported state")
    c.event("round trips")



def resolutions(c):
    """Any resolution and coordinate precision comes back as the same gridpoints."""
    import xarray as xr
    n = int(pick(c.rng, [338, 474, 182, 106, 98, 214, 230, 254, 362] + [int(c.rng.integers(4, 190)) * 2 for _ in range(12)]))
    lon, lat = _coords(c, n, pick(c.rng, [np.float64, np.float32, np.float32]))
    c.note(nlon=n)
    val = 1e-5 * np.sin(np.deg2rad(np.asarray(lat, float)))[:, None] * np.ones((1, n))
    ds = xr.Dataset({"vo": (("latitude", "longitude"), val)}, {"latitude": lat, "longitude": lon})
    ok, out = c.works(lambda: bt.io.from_dataset(ds, grid_kwargs={"omega": 0., "legfunc": "computed"}), f"import of a grid with {n} longitudes as {lon.dtype}")
    if ok:
        g = out.grid
        c.equal((g.nlat, g.nlon), (n // 2 + 1, n), "grid size")
        c.close(g.lon, 360. / n * np.arange(n), "longitudes", atol=1e-8)
        c.close(g.lat, np.linspace(90, -90, n // 2 + 1), "latitudes", atol=1e-8)
        c.close(float(g.dlon), 360. / n, "grid spacing", rtol=1e-9)
        c.close(out[0].vorticity, val, "field", atol=1e-5 * (2e-5 + 3e-7 * n))
    c.event("resolutions")


def rejects(c):
    import xarray as xr
    nlon = int(pick(c.rng, [12, 16, 18, 24, 36]))
    nlat = nlon // 2 + 1
    lon, lat = np.arange(nlon) * 360. / nlon, np.linspace(90, -90, nlat)
    d = 360. / nlon
    nt = int(pick(c.rng, [1, 2, 3]))
    f = c.rng.normal(size=(nt, nlat, nlon)) * 1e-5
    def ds(lat=lat, lon=lon, f=f, dims=("time", "latitude", "longitude"), fields=("u", "v"), **kw):
        co = {"latitude": lat, "longitude": lon}
        co.update(kw)
        return xr.Dataset({k: (dims, f) for k in fields}, {k: v for k, v in co.items() if v is not None})
    wiggle = np.zeros(nlon); wiggle[int(c.rng.integers(1, nlon))] = d * float(pick(c.rng, [.2, -.3, .05]))
    wig2 = np.zeros(nlat); wig2[int(c.rng.integers(1, nlat))] = d * float(pick(c.rng, [.2, -.3, .05]))
    shift = float(c.rng.uniform(.05, .9)) * d
    k = int(c.rng.integers(1, nlon // 2))
    fields = pick(c.rng, [("u", "v"), ("vo",), ("avo",), ("pv",), ("u", "v", "vo")])
    bads = {
        "no longitude": lambda: ds(fields=fields, dims=("time", "latitude", "x"), lon=None),
        "no latitude": lambda: ds(fields=fields, dims=("time", "y", "longitude"), lat=None),
        "no field": lambda: ds(fields=("temperature", "t2m")),
        "only u": lambda: ds(fields=("u",)),
        "only v": lambda: ds(fields=("v", "z")),
        "shifted longitude": lambda: ds(lon=lon + shift, fields=fields),
        "longitude -180..180": lambda: ds(lon=lon - 180, fields=fields),
        "longitude -d": lambda: ds(lon=lon - d, fields=fields),
        "decreasing longitude": lambda: ds(lon=lon[::-1], fields=fields),
        "decreasing from 0": lambda: ds(lon=-lon, fields=fields),
        "irregular longitude": lambda: ds(lon=lon + wiggle, fields=fields),
        "regional longitude": lambda: ds(lon=lon[:-k], f=f[..., :-k], fields=fields),
        "half the globe": lambda: ds(lon=lon / 2, fields=fields),
        "360 repeated": lambda: ds(lon=np.linspace(0, 360, nlon), fields=fields),
        "360 appended": lambda: ds(lon=np.append(lon, 360.), f=np.concatenate([f, f[..., :1]], axis=-1), fields=fields),
        "flipped latitude": lambda: ds(lat=lat[::-1], fields=fields),
        "shifted latitude": lambda: ds(lat=lat - shift, fields=fields),
        "gaussian-like latitude": lambda: ds(lat=lat * (1 - .5 / nlat), fields=fields),
        "irregular latitude": lambda: ds(lat=lat + wig2, fields=fields),
        "regional latitude N": lambda: ds(lat=lat[:-1], f=f[:, :-1], fields=fields),
        "regional latitude S": lambda: ds(lat=lat[1:], f=f[:, 1:], fields=fields),
        "hemisphere": lambda: ds(lat=lat[:nlat // 2 + 1], f=f[:, :nlat // 2 + 1], fields=fields),
        "half spacing latitude": lambda: ds(lat=np.linspace(90, -90, 2 * nlat - 1), f=np.zeros((nt, 2 * nlat - 1, nlon)), fields=fields),
        "double spacing latitude": lambda: ds(lat=lat[::2], f=f[:, ::2], fields=fields) if nlat % 2 == 1 else ds(lat=lat[::-1], fields=fields),
        "coarse longitude": lambda: ds(lon=lon[::2], f=f[..., ::2], fields=fields),
        "lat and lon exchanged": lambda: ds(dims=("time", "longitude", "latitude"), f=np.swapaxes(f, 1, 2), fields=fields),
        "time last": lambda: ds(dims=("latitude", "longitude", "time"), f=np.moveaxis(np.concatenate([f, f]), 0, 2), fields=fields),
        "time in the middle": lambda: ds(dims=("latitude", "time", "longitude"), f=np.moveaxis(np.concatenate([f, f]), 0, 1), fields=fields),
        "profile": lambda: xr.Dataset({k: (("latitude",), f[0, :, 0]) for k in fields}, {"latitude": lat, "longitude": lon}),
        "2d coordinates": lambda: xr.Dataset({k: (("y", "x"), f[0]) for k in fields}, {"latitude": (("y", "x"), np.repeat(lat[:, None], nlon, 1)), "longitude": (("y", "x"), np.repeat(lon[None], nlat, 0))}),
        "different dims of u and v": lambda: xr.Dataset({"u": (("time", "latitude", "longitude"), np.concatenate([f, f])), "v": (("member", "latitude", "longitude"), np.concatenate([f, f]))}, {"latitude": lat, "longitude": lon}),
        "coordinates as data only": lambda: ds(lat=None, lon=None, fields=fields).assign(latitude2=("latitude", lat)),
    }
    for name in [str(x) for x in c.rng.permutation(list(bads))[:4]]:
        bad = bads[name]()
        c.note(**{name: True}, fields=fields, nlon=nlon, nt=nt)
        c.raises(lambda: bt.io.from_dataset(bad), f"defective dataset accepted: {name}", Exception)
        if name == "no longitude":
            c.raises(lambda: bt.io.from_dataset(bad, names={"lon": "nothere"}), "name of a missing coordinate")
        c.event("refusals")
    # wrong names of fields
    good = ds(fields=("a", "b"))
    c.raises(lambda: bt.io.from_dataset(good, names={"vo": "c"}), "name of a missing field")
    c.works(lambda: bt.io.from_dataset(good, names={"u": "a", "v": "b"}), "the same dataset without the defect")


CASES = [(imports, 60, 2500), (round_trip, 25, 900), (resolutions, 10, 250), (rejects, 30, 700)]
REQUIRED_EVENTS = {"imports": 40, "imported states": 100, "round trips": 15, "resolutions": 8, "refusals": 80}
