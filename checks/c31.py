"""C31: text representations."""
import datetime as dt, fractions, re
import numpy as np, barotropic as bt
from lib.gen import *
from lib import regions
from lib.core import digest

RULE = "a case is an object of the public API (grid, region, state, collection, model, forcing terms) or a time; the numbers of its text are parsed and compared with the object's, the region map box by box"

UNIT = {"s": 1., "min": 60., "h": 3600., "d": 86400.}


def _time(c):
    rng = c.rng
    k = pick(rng, ["number"] * 6 + ["threshold"] * 2 + ["datetime", "timestamp", "date", "tz"])
    if k == "number":
        x = float(pick(rng, [-1, 1, 1, 1])) * 10 ** float(rng.uniform(-3, 10))
        x = pick(rng, [float, int, np.float64, np.float32, np.int64, lambda y: fractions.Fraction(int(y), 7), lambda y: round(y), lambda y: np.int32(min(abs(y), 2e9)), lambda y: np.float16(min(abs(y), 6e4))])(x)
    elif k == "threshold":
        x = pick(rng, [0, 0., -0., 119.9, 120, 120.0001, 121, 7199, 7200, 7200.5, 7201, 863999, 864000, 864001, 240 * 3600, True, 1e12, -1e6, 86400 * 10.04, 59.96, 3599.99])
    elif k == "datetime":
        x = dt.datetime(int(rng.integers(1, 9999)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)), int(pick(rng, [0, 0, 1, 500000])))
    elif k == "timestamp":
        import pandas as pd
        x = pd.Timestamp(2000 + int(rng.integers(100)), 5, 6, 7)
    elif k == "date":
        x = dt.date(2020, 2, 29)
    else:
        x = dt.datetime(2020, 1, 1, tzinfo=dt.timezone(dt.timedelta(hours=3)))
    c.note(time=str(x), time_type=type(x).__name__)
    return x


def check_time_text(c, txt, t, msg):
    if isinstance(t, (dt.date,)): # datetimes, too
        c.check(t.isoformat() in txt, f"{msg}: {txt!r} for {t!r}")
        return
    m = re.search(r"t = (-?[\d.]+|-?\d[\d.e+-]*) (s|min|h|d)(?![a-z])", txt)
    if not c.check(m is not None, f"{msg}: no number with a unit in {txt!r} for {t!r}"):
        return
    val, unit = float(m.group(1)), UNIT[m.group(2)]
    digits = len(m.group(1).split(".")[1]) if "." in m.group(1) else 0
    want = float(t)
    eps = 1e-3 if isinstance(t, np.float16) else (1e-6 if isinstance(t, np.float32) else 1e-12)
    c.check(abs(val * unit - want) <= .5 * 10. ** -digits * unit * (1 + 1e-9) + 2 * eps * abs(want), f"{msg}: {txt!r} says {val * unit} s for {t!r}")
    c.check(digits >= 1, f"{msg}: precision of {txt!r}")
    # documented ranges of the units keep the numbers readable
    if want > 121 and m.group(2) == "s":
        c.fail(f"{msg}: {want} s are not converted: {txt!r}")


def time_texts(c):
    t = _time(c)
    ok, txt = c.works(lambda: bt.formatting.format_time(t), "format_time")
    if ok:
        check_time_text(c, txt, t, "format_time")
        c.event("times")


def number_after(txt, label):
    m = re.search(re.escape(label) + r"\s*=\s*\(?\s*(-?[\d.]+(?:e[+-]?\d+)?|nan|inf)", txt)
    return None if m is None else float(m.group(1))


def _grid_text(c, txt, g, w):
    m = re.search(r"\(nlat, nlon\)\s*=\s*\((\d+), (\d+)\)", txt)
    c.check(m is not None and (int(m.group(1)), int(m.group(2))) == (w.ref.nlat, w.ref.nlon), f"shape in {txt!r}")
    for label, want in (("resolution", 360. / w.ref.nlon), ("rsphere", w.ref.r), ("omega", w.ref.omega), ("ntrunc", w.ntrunc)):
        got = number_after(txt, label)
        c.check(got is not None and abs(got - want) <= 1e-6 * abs(want), f"{label} of the grid is {want}: {txt!r}")
    c.event("grids")


def grids(c):
    w = world(c, NLON_ALL + [14, 22, 26, 34])
    g = w.grid
    ok, txt = c.works(lambda: repr(g), "repr of a grid")
    if ok:
        _grid_text(c, txt, g, w)
        c.check(w_leg(c) in txt, f"type of Legendre functions in {txt!r}")
        c.equal(str(g), txt, "str of a grid")
    kw = dict(resolution=pick(c.rng, [10, 20, np.float32(15), np.int64(30), 360 / 26]), rsphere=pick(c.rng, [1, np.float32(2.5), np.int64(7)]), omega=pick(c.rng, [0, -1, np.float32(.5)]))
    ok, txt = c.works(lambda: repr(bt.Grid(**kw)), f"repr of a grid with {kw}")
    if ok:
        for k in kw:
            got = number_after(txt, k)
            c.check(got is not None and abs(got - float(kw[k])) <= 1e-6 * abs(float(kw[k])), f"{k} in {txt!r}")


def w_leg(c):
    return c.desc["legfunc"]


def region_texts(c):
    w = world(c, NLON_ALL + [14, 22, 26, 34], legfunc=False)
    g, ref = w.grid, w.ref
    region, jj, ii = regions.selection(c, g)
    if c.rng.random() < .15: # between two gridpoints
        d = 360. / g.nlon
        a, b = int(c.rng.integers(g.nlon)), int(c.rng.integers(g.nlat - 1))
        lo = slice(d * (a + .2), d * (a + .8))
        la = slice(90 - d * (b + .2), 90 - d * (b + .8))
        region, jj, ii = pick(c.rng, [(g.region[lo, :], list(range(g.nlat)), []), (g.region[:, la], [], list(range(g.nlon))), (g.region[lo, la], [], [])])
        c.note(region=f"empty {a} {b}")
    before = digest([np.asarray(region.lat), np.asarray(region.lon)])
    ok, txt = c.works(lambda: repr(region), "repr of a region")
    if not ok:
        return
    c.check(digest([np.asarray(region.lat), np.asarray(region.lon)]) == before, "region is not changed")
    _grid_text(c, txt, g, w)
    lat, lon = ref.lat[jj], ref.lon[ii]
    m = re.search(r"(-?[\d.]+|nan)\s+to\s+(-?[\d.]+|nan)\s*°N\s*\(nlat = (\d+)\)", txt)
    if c.check(m is not None, f"latitudes in {txt!r}"):
        c.equal(int(m.group(3)), len(jj), "number of latitudes")
        if jj:
            c.check(abs(float(m.group(1)) - lat.min()) <= .0051 and abs(float(m.group(2)) - lat.max()) <= .0051, f"latitude limits {lat.min()}, {lat.max()} in {txt!r}")
    m = re.search(r"(-?[\d.]+|nan)\s+to\s+(-?[\d.]+|nan)\s*°E\s*\(nlon = (\d+)\)", txt)
    if c.check(m is not None, f"longitudes in {txt!r}"):
        c.equal(int(m.group(3)), len(ii), "number of longitudes")
        if ii:
            c.check(abs(float(m.group(1)) - lon[0]) <= .0051 and abs(float(m.group(2)) - lon[-1]) <= .0051, f"longitude limits {lon[0]}, {lon[-1]} in {txt!r}")
    rows = [mm.group(0) for mm in re.finditer(r"[X·]{36}", txt)]
    if not c.equal(len(rows), 9, "rows of the region map"):
        return
    # the labels of the map are at their coordinates
    lines = txt.split("\n")
    at = [k for k, line in enumerate(lines) if re.search(r"[X·]{36}", line)]
    c.check(at == list(range(at[0], at[0] + 9)), f"rows of the map follow each other:\n{txt}")
    for k, row in enumerate(at):
        label = re.sub(r"[X·]{36}", "", lines[row]).strip()
        c.equal(label, {0: "90°N", 4: "EQ", 8: "90°S"}.get(k, ""), f"label of row {k} of the map")
    first = lines[at[0]].index(rows[0])
    below = lines[at[-1] + 1]
    for mm in re.finditer(r"(\d+)°E", below):
        c.check(mm.start() - .5 <= first + int(mm.group(1)) / 10 <= mm.end() + .5, f"label {mm.group(0)!r} below the map is at its longitude:\n{txt}")
    c.equal(re.findall(r"(\d+)°E", below), ["0", "180"], "longitudes below the map")
    mark = np.array([[ch == "X" for ch in r] for r in rows])
    must = np.zeros((9, 36), bool)     # boxes with a point inside
    may = np.zeros((9, 36), bool)      # boxes with a point inside or on the edge
    EDGE = 1e-6
    def boxes(x, width, count, periodic):
        """(boxes that contain x, boxes that touch x)"""
        k = x / width
        r = round(k)
        if abs(k - r) < EDGE:
            near = [r - 1, r]
            near = [b % count for b in near] if periodic else [b for b in near if 0 <= b < count]
            return None, near
        return int(np.floor(k)), [int(np.floor(k))]
    rb = [boxes(90. - y, 20., 9, False) for y in lat]
    cb = [boxes(x, 10., 36, True) for x in lon]
    for ri, rn in rb:
        for ci, cn in cb:
            may[np.ix_(rn, cn)] = True
            if ri is not None and ci is not None:
                must[ri, ci] = True
    c.check(not (must & ~mark).any(), f"boxes that contain selected points are not marked:\n{txt}")
    c.check(not (mark & ~may).any(), f"boxes without selected points are marked:\n{txt}")
    miss = [(float(y), float(x)) for y, (ri, rn) in zip(lat, rb) for x, (ci, cn) in zip(lon, cb) if not mark[np.ix_(rn, cn)].any()]
    c.check(not miss, f"selected points {miss[:3]} are in no marked box:\n{txt}")
    c.event("regions")
    c.event("map boxes marked", int(mark.sum()))
    if not (len(jj) and len(ii)):
        c.event("empty regions")


def states(c):
    w = world(c, NLON_SMALL, legfunc=False)
    g = w.grid
    t = _time(c)
    s = pick(c.rng, [lambda: bt.init.motionless(g, t), lambda: bt.State(g, t, pv=g.fcor2), lambda: bt.State(g, t, pv_spectral=g.to_spectral(g.fcor2)), lambda: bt.State.from_wind(g, t, 0 * g.fcor2, 0 * g.fcor2)])()
    before = dict(vars(s)).keys()
    ok, txt = c.works(lambda: repr(s), "repr of a state")
    if ok:
        check_time_text(c, txt, t, "repr of a state")
        c.check("State" in txt, "name of the class")
    n = int(c.rng.integers(0, 12))
    lst = bt.StateList([s] * n)
    ok, txt = c.works(lambda: repr(lst), "repr of a collection")
    if ok:
        c.check([int(x) for x in re.findall(r"\d+", txt)] == [n], f"number of states {n} in {txt!r}")
    c.works(lambda: f"{s} {lst} {[s]} {(lst,)}", "text in containers")
    # states that come from other parts of the library
    import xarray as xr
    kind = pick(c.rng, ["int", "f32", "datetime", "none", "scalar"])
    tt = {"int": np.array([3]), "f32": np.array([500.], np.float32), "datetime": np.array(["2001-02-03T04:05"], "datetime64[ns]"), "scalar": np.array([7.])}.get(kind)
    f = np.zeros((1, *g.shape))
    ds = xr.Dataset({"vo": (("time", "latitude", "longitude"), f)}, {"latitude": w.ref.lat, "longitude": w.ref.lon, **({"time": tt} if tt is not None else {})})
    if kind == "scalar":
        ds = ds.isel(time=0)
    c.note(imported=kind)
    ok, txt = c.works(lambda: repr(bt.io.from_dataset(ds)[0]), "repr of an imported state")
    if ok:
        check_time_text(c, txt, {"int": 3, "f32": 500., "datetime": dt.datetime(2001, 2, 3, 4, 5), "none": 0, "scalar": 7.}[kind], "repr of an imported state")
    if isinstance(t, (float, int)) and not isinstance(t, bool) and abs(t) < 1e9:
        m = bt.BarotropicModel()
        last, out = m.run(bt.init.motionless(g, t), dt=600, tend=t + 1200)
        for x in out:
            ok, txt = c.works(lambda: repr(x), "repr of a computed state")
            if ok:
                check_time_text(c, txt, x.time, "repr of a computed state")
        c.works(lambda: repr(out), "repr of a simulation")
    elif isinstance(t, dt.datetime) and 1000 < t.year < 9000:
        m = bt.BarotropicModel()
        last, out = m.run(bt.init.motionless(g, t), dt=dt.timedelta(seconds=600), tend=t + dt.timedelta(seconds=1200))
        ok, txt = c.works(lambda: repr(last), "repr of a computed state")
        if ok:
            check_time_text(c, txt, last.time, "repr of a computed state")
    c.event("states")


_sup = {ord(a): b for a, b in zip("⁰¹²³⁴⁵⁶⁷⁸⁹⁺⁻", "0123456789+-")}


def models(c):
    w = world(c, NLON_SMALL[:5], legfunc=False)
    g = w.grid
    s0 = bt.init.motionless(g)
    f = c.rng.normal(size=g.shape)
    def term(depth):
        if depth == 0 or c.rng.random() < .3:
            t0 = pick(c.rng, [0, 3600., dt.datetime(2000, 1, 1)])
            makers = {
                "relax": lambda: bt.rhs.LinearRelaxation(float(10 ** c.rng.uniform(-8, -3)), s0.pv),
                "switch": lambda: bt.rhs.TimedOffSwitch(t0),
                "gauss": lambda: bt.rhs.GaussianMountain(height=1000., center=(180., 45.), stdev=(10., 7.)),
                "sine": lambda: bt.rhs.ZonalSineMountains(height=1000., center_lat=45., wavenumber=4),
                "orography": lambda: bt.rhs.Orography(g.lon, g.lat, f),
                "custom": lambda: (lambda state: 0 * state.pv),
            }
            for k in [str(x) for x in c.rng.permutation(list(makers))]:
                out = makers[k]()
                if not isinstance(out, bt.rhs.RHS) and depth > 0:
                    continue
                return out
        a, b = term(depth - 1), term(depth - 1)
        if not isinstance(a, bt.rhs.RHS) and not isinstance(b, bt.rhs.RHS):
            return a
        return a + b if c.rng.random() < .5 else a * b
    rhs = pick(c.rng, [None, "term", "term", "sum"])
    if rhs == "term":
        rhs = term(0)
    elif rhs == "sum":
        rhs = term(3)
    order = pick(c.rng, [1, 2, 3, 4, 5, 10, np.int64(2)])
    coeff = pick(c.rng, [0, 0., 1e15, 1.17e16, 123.456, np.float32(3e4), 1, 1e-300, 10 ** 20])
    kw = {}
    if rhs is not None: kw["rhs"] = rhs
    if c.rng.random() < .8: kw["diffusion_order"] = order
    if c.rng.random() < .8: kw["diffusion_coeff"] = coeff
    c.note(order=int(order), coeff=float(coeff), rhs=type(rhs).__name__, i=c.index)
    m = bt.BarotropicModel(**kw)
    ok, txt = c.works(lambda: repr(m), "repr of a model")
    if ok:
        want = float(m.diffusion_coeff)
        mm = re.search(r"κ\s*=\s*(-?[\d.]+(?:e[+-]?\d+)?)\s*m([⁰¹²³⁴⁵⁶⁷⁸⁹]+)s", txt)
        if c.check(mm is not None, f"diffusion coefficient and unit in {txt!r}"):
            c.check(abs(float(mm.group(1)) - want) <= 1e-4 * abs(want), f"diffusion coefficient {want} in {txt!r}")
            c.equal(int(mm.group(2).translate(_sup)), 2 * int(m.diffusion_order), "unit of the diffusion coefficient")
        mm = re.search(r"∇([⁰¹²³⁴⁵⁶⁷⁸⁹]+)", txt)
        c.check(mm is not None and int(mm.group(1).translate(_sup)) == 2 * int(m.diffusion_order), f"order of diffusion {m.diffusion_order} in {txt!r}")
        c.check(repr(m.rhs) in txt, "forcing in the text")
        if "diffusion_coeff" in kw:
            c.check(abs(want - float(coeff)) <= 1e-6 * abs(float(coeff)), "coefficient of the model")
        c.event("models")
    if rhs is not None:
        c.works(lambda: f"{rhs!r} {rhs}", "repr of a forcing term")
    a, b = bt.rhs.TimedOffSwitch(3), bt.rhs.LinearRelaxation(1e-5, s0.pv)
    for x, what in ((a + b, "sum"), (a * b, "product"), (a * b + a, "nested"), (b + (a + b) * a, "nested")):
        ok, txt = c.works(lambda: repr(x), f"repr of a {what}")
        if ok:
            c.check(repr(a) in txt and repr(b) in txt, f"{what} shows its operands: {txt!r}")
    c.check(repr(a + b) != repr(a * b), "sum and product differ")
    ok, txt = c.works(lambda: repr(b + (a + b) * a), "repr")
    if ok: # the text is the expression
        ev = txt.replace(repr(a), "A").replace(repr(b), "B")
        try:
            got = eval(ev, {"A": 3, "B": 5})
        except Exception as e:
            got = type(e).__name__
        c.equal(got, 5 + (3 + 5) * 3, f"value of the expression {ev!r}")
    c.event("forcing terms")


CASES = [(time_texts, 120, 4000), (grids, 40, 600), (region_texts, 70, 4000), (states, 30, 700), (models, 30, 600)]
REQUIRED_EVENTS = {"times": 90, "grids": 60, "regions": 50, "empty regions": 2, "states": 20, "models": 20, "forcing terms": 20}
