"""C20: forcing terms against their documented expressions."""
import datetime as dt
import numpy as np, barotropic as bt
from lib.gen import *
from lib.gen import World

RULE = "a case is a set of terms and parameters evaluated on a sequence of states, grids and planets; every value is compared with the documented expression in float64"


def height(kind, p, w):
    ref = w.ref
    lon, lat = ref.lon[None, :], ref.lat[:, None]
    if kind == "gauss":
        d = np.abs((lon - p["center"][0]) % 360.)
        d = np.minimum(d, 360. - d)
        sx, sy = p["stdev"] if isinstance(p["stdev"], tuple) else (p["stdev"],) * 2
        return p["height"] * np.exp(-d ** 2 / (2 * sx ** 2)) * np.exp(-(lat - p["center"][1]) ** 2 / (2 * sy ** 2))
    if kind == "sine":
        return p["height"] * .5 * (1 + np.cos(p["wavenumber"] * np.deg2rad(lon))) * np.exp(-(lat - p["center_lat"]) ** 2 / (2 * p["stdev_lat"] ** 2))
    # bilinear interpolation, piecewise by hand
    X, Y, Z = p["lon"], p["lat"], p["oro"]
    out = np.zeros(ref.shape)
    for j in range(ref.nlat):
        y = ref.lat[j]
        a = max(i for i in range(len(Y)) if Y[i] >= y - 1e-9 or i == 0)
        a = min(a, len(Y) - 2)
        ty = min(max((Y[a] - y) / (Y[a] - Y[a + 1]), 0), 1)
        for i in range(ref.nlon):
            x = ref.lon[i]
            b = max(k for k in range(len(X)) if X[k] <= x + 1e-9 or k == 0)
            b = min(b, len(X) - 2)
            tx = min(max((x - X[b]) / (X[b + 1] - X[b]), 0), 1)
            out[j, i] = ((1 - ty) * ((1 - tx) * Z[a, b] + tx * Z[a, b + 1]) + ty * ((1 - tx) * Z[a + 1, b] + tx * Z[a + 1, b + 1]))
    return out


def _oro(c, kind=None, small=False):
    """(term, kind, parameters incl. those of the forcing)"""
    rng = c.rng
    kind = kind or pick(rng, ["gauss", "gauss", "sine", "grid"])
    wk = pick(rng, ["act", "act", "zon", "sbr"])
    wf = float(pick(rng, [1., .5, 2., -1., 0.])) * (15. if wk == "sbr" else 1.)
    p = dict(wind=(wk, wf), scale_height=float(pick(rng, [10000., 8000., 1.2e4])), fcor_ref=pick(rng, [None, None, 1e-4, -5e-5, 0.]))
    kw = {}
    if (wk, wf) != ("act", 1.) or rng.random() < .5:
        kw["wind"] = p["wind"] if rng.random() < .8 else list(p["wind"])
    if p["scale_height"] != 10000. or rng.random() < .5:
        kw["scale_height"] = p["scale_height"]
    if p["fcor_ref"] is not None or rng.random() < .3:
        kw["fcor_ref"] = p["fcor_ref"]
    if kind == "gauss":
        q = dict(height=1500, center=(30., 45.), stdev=(7.5, 20.))
        given = {}
        if rng.random() < .8: given["height"] = float(rng.uniform(100, 4000))
        if rng.random() < .9: given["center"] = (pick(rng, [0., 5., 355., 350., 180., 90., float(rng.uniform(0, 360)), 359, -20., 30]), pick(rng, [45., 0., -40., 70., 85., -90.]))
        if rng.random() < .9: given["stdev"] = pick(rng, [(20., 15.), (40., 30), 25., 30, (90., 20.), (10., 20.)])
        # pairs in any container
        a = {k: pick(rng, [tuple, tuple, list, np.array])(v) if isinstance(v, tuple) else v for k, v in given.items()}
        t = bt.rhs.GaussianMountain(**a, **kw) if rng.random() < .6 or len(a) < 3 else bt.rhs.GaussianMountain(a["height"], a["center"], a["stdev"], **kw)
    elif kind == "sine":
        q = dict(height=1500, center_lat=45., stdev_lat=10., wavenumber=4)
        given = {}
        if rng.random() < .8: given["height"] = float(rng.uniform(100, 4000))
        if rng.random() < .8: given["center_lat"] = pick(rng, [0., 30, -50., 80.])
        if rng.random() < .8: given["stdev_lat"] = pick(rng, [15., 25, 40.])
        if rng.random() < .8: given["wavenumber"] = int(rng.integers(0, 6))
        t = bt.rhs.ZonalSineMountains(**given, **kw)
    else:
        nx, ny = int(rng.integers(4, 40)), int(rng.integers(3, 30))
        X, Y = np.linspace(0, 360, nx + 1), np.linspace(90, -90, ny)
        if rng.random() < .4: # irregular spacing
            X[1:-1] += rng.uniform(-.4, .4, nx - 1) * (X[1] - X[0]); Y[1:-1] += rng.uniform(-.4, .4, ny - 2) * (Y[0] - Y[1])
        Z = rng.normal(size=(ny, nx + 1)) * 800.
        Z[:, -1] = Z[:, 0]
        q, given = {}, dict(lon=X, lat=Y, oro=Z)
        t = bt.rhs.Orography(X, Y, Z, **kw) if rng.random() < .5 else bt.rhs.Orography(lon=X, lat=Y, orography=Z, **kw)
    q.update(given)
    return t, kind, q, p


def value(w, s, kind, q, p, h=None):
    """-f/H wind . grad h with the gradient of the truncated height field."""
    ref, g = w.ref, w.grid
    h = height(kind, q, w) if h is None else h
    # The operator of the library is judged by C04; its truncated gradient is used so that the height field need not be resolved
    gx, gy = (np.asarray(x, float) for x in g.gradient(h))
    u, v = np.asarray(s.u, float), np.asarray(s.v, float)
    wk, wf = p["wind"]
    if wk == "act":
        a, b = wf * u, wf * v
    elif wk == "zon":
        a, b = wf * u.mean(axis=1, keepdims=True) * np.ones((1, g.nlon)), 0 * v
    else:
        a, b = wf * np.cos(ref.phi)[:, None] * np.ones((1, g.nlon)), 0 * v
    f = ref.f2 if p["fcor_ref"] is None else np.full(ref.shape, p["fcor_ref"])
    out = -f / p["scale_height"] * (a * gx + b * gy)
    scale = np.max(np.abs(f)) / p["scale_height"] * (np.max(np.abs(a)) + np.max(np.abs(b)) + (np.max(np.abs(wf * u)) if wk == "zon" else 0.)) * (np.max(np.abs(gx)) + np.max(np.abs(gy)))
    return out, scale


def _worlds(c, n):
    """Grids, several of them with the same shape but of another planet or truncation."""
    nlon = pick(c.rng, [20, 24, 30, 36])
    out = []
    for k in range(n):
        out.append(world(c, nlon=nlon if c.rng.random() < .7 else pick(c.rng, [16, 20, 28, 40]), radii=[EARTH_R, EARTH_R, 3e6, 2e7], omegas=[EARTH_W, 1e-4, -5e-5], legfunc=False, truncate=.4))
    return out


def _state(c, w, t=0.):
    return bt.State.from_vorticity(w.grid, t, w.ref.synth(flow(c, w, slope=1.5)))


def orography(c):
    t, kind, q, p = _oro(c)
    ws = _worlds(c, int(c.rng.integers(1, 5)))
    c.note(term=kind, shape={k: (v if not isinstance(v, np.ndarray) else v.shape) for k, v in q.items()}, wind=p["wind"], fcor_ref=p["fcor_ref"], scale_height=p["scale_height"],
           grids=[w.params() for w in ws])
    order = list(range(len(ws))) * 2
    c.rng.shuffle(order)
    for k in order:
        w = ws[int(k)]
        grid = w.grid
        if c.rng.random() < .3: # an equal grid that is another object
            nt = w.ntrunc
            grid = bt.Grid(360. / w.ref.nlon, w.ref.r, w.ref.omega, **({} if nt == w.ref.nlat - 1 else {"ntrunc": nt}))
            w = World(grid, w.ref, nt)
        h = height(kind, q, w)
        c.close(t.orography(grid), h, f"height of the {kind} orography", atol=1e-9 * np.max(np.abs(h)) + 1e-9)
        s = _state(c, w)
        want, scale = value(w, s, kind, q, p, h)
        got = t(s)
        c.close(np.broadcast_to(got, want.shape), want, f"{kind} forcing with {p}", atol=2e-5 * scale + 1e-300)
        c.event("orographic forcings")
    c.raises(lambda: bt.rhs.GaussianMountain(wind=(pick(c.rng, ["abs", "", "ACT", None]), 1.)), "unknown wind kind", ValueError)


def resolved(c):
    """Height fields the grid resolves: fully analytic expectation."""
    w = world(c, [24, 30, 36, 40], radii=[EARTH_R, 3e6], omegas=[EARTH_W, -1e-4], truncate=.2)
    ref, g = w.ref, w.grid
    ch = ref.random(c.rng, w.band, 0, 1., 1000.)
    h = ref.synth(ch)
    X = np.append(ref.lon, 360.)
    Z = np.concatenate([h, h[:, :1]], axis=1)
    wk = pick(c.rng, ["act", "zon", "sbr"])
    wf = float(c.rng.uniform(-2, 2)) * (10 if wk == "sbr" else 1)
    H = float(c.rng.uniform(5e3, 2e4))
    fr = pick(c.rng, [None, 1e-4])
    t = bt.rhs.Orography(X, np.array(ref.lat), Z, H, (wk, wf), fr)
    cv = flow(c, w)
    s = bt.State.from_vorticity(g, 0., ref.synth(cv))
    u, v = ref.wind(cv)
    if wk == "zon":
        u, v = u.mean(axis=1, keepdims=True) * np.ones((1, g.nlon)), 0 * v
    if wk == "sbr":
        u, v = np.cos(ref.phi)[:, None] * np.ones((1, g.nlon)), 0 * v
    gx, gy = ref.gradient(ch)
    f = ref.f2 if fr is None else fr
    want = -f / H * wf * (u * gx + v * gy)
    q = np.max(np.abs(ref.synth(cv + ref.c_fcor())))
    scale = np.max(np.abs(f)) / H * abs(wf) * (np.max(np.hypot(u, v)) + (1e-1 * q * ref.r if wk != "sbr" else 0)) * (np.max(np.hypot(gx, gy)) + 1000. * np.sqrt(ref.eig[w.band]) * .05)
    c.note(wind=(wk, wf), fcor_ref=fr)
    c.close(np.broadcast_to(t(s), want.shape), want, f"analytic forcing with wind {wk}", atol=1e-4 * scale)
    c.event("analytic forcings")


class Custom(bt.rhs.RHS):
    def __init__(self, k): self.k = k; self.calls = 0
    def __call__(self, s): self.calls += 1; return self.k * np.sin(s.grid.lam2 * 2) * s.pv


class Stored(bt.rhs.RHS):
    def __init__(self, arr): self.arr = arr
    def __call__(self, s): return self.arr


def combinations(c):
    """Random expression trees of terms."""
    rng = c.rng
    times_ = [0., 10., 3600.] if rng.random() < .6 else [dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, 6), dt.datetime(2020, 2, 1)]
    ws = _worlds(c, 2)
    nlon = ws[0].ref.nlon
    ws = [w for w in ws if w.ref.nlon == nlon]
    S = [(w, _state(c, w, pick(rng, times_))) for w in ws for _ in range(2)]
    refpv = rng.normal(size=ws[0].ref.shape) * 1e-4
    leaves, stored = [], []
    # values with the magnitude that the rounding errors are relative to
    plus = lambda x, y: (x[0] + y[0], x[1] + y[1])
    times = lambda x, y: (x[0] * y[0], (np.max(np.abs(x[0])) + x[1]) * (np.max(np.abs(y[0])) + y[1]))
    def leaf():
        k = pick(rng, ["relax", "oro", "switch", "custom", "plain", "stored"])
        if k == "relax":
            rate = float(rng.uniform(.1, 2)); r = pick(rng, [refpv, 1e-4, refpv.astype(np.float32)])
            t = bt.rhs.LinearRelaxation(rate, r)
            f = lambda w, s: (rate * (np.asarray(r, float) - np.asarray(s.pv, float)), rate * (np.max(np.abs(r)) + np.max(np.abs(s.pv))))
        elif k == "oro":
            t, kind, q, p = _oro(c, kind=pick(rng, ["gauss", "sine"]))
            f = lambda w, s: value(w, s, kind, q, p)
        elif k == "switch":
            te = pick(rng, times_)
            t = bt.rhs.TimedOffSwitch(te)
            f = lambda w, s: (1. if s.time <= te else 0., 5e-3)
        elif k == "custom":
            m = float(rng.normal()); t = Custom(m)
            f = lambda w, s: (m * np.sin(2 * w.ref.lam[None, :]) * np.asarray(s.pv, float), abs(m) * np.max(np.abs(s.pv)))
        elif k == "stored":
            # the term returns the same array object every time
            arr = rng.normal(size=S[0][0].ref.shape) * float(pick(rng, [1., 1e-4]))
            if rng.random() < .3:
                arr = arr.astype(np.float32)
            if rng.random() < .2:
                arr = rng.integers(-3, 4, size=arr.shape)
            t = Stored(arr)
            stored.append((t, arr.copy()))
            keep = arr.astype(float)
            f = lambda w, s: (keep, np.max(np.abs(keep)))
        else:
            m = float(rng.normal()); t = (lambda s: m * s.u)
            f = lambda w, s: (m * np.asarray(s.u, float), abs(m) * np.max(np.abs(s.u)))
        leaves.append(k)
        return t, f, k
    def tree(depth):
        if depth == 0 or rng.random() < .2:
            return leaf()
        a, fa, ka = tree(depth - 1)
        b, fb, kb = tree(depth - 1) if rng.random() < .85 else (a, fa, ka) # the same term twice
        if not isinstance(a, bt.rhs.RHS) and not isinstance(b, bt.rhs.RHS):
            return a, fa, ka
        if rng.random() < .55:
            return a + b, (lambda w, s: plus(fa(w, s), fb(w, s))), f"({ka}+{kb})"
        return a * b, (lambda w, s: times(fa(w, s), fb(w, s))), f"({ka}*{kb})"
    t, f, name = tree(int(rng.integers(1, 5)))
    c.note(tree=name, times=[str(s.time) for _, s in S])
    for k in list(range(len(S))) + [int(rng.integers(len(S))) for _ in range(2)]:
        w, s = S[k]
        want, scale = f(w, s)
        want = np.asarray(want, float)
        got = t(s)
        c.close(np.broadcast_to(got, want.shape), want, f"{name}", atol=5e-5 * scale + 1e-30)
        for term, arr in stored:
            c.check(np.array_equal(term.arr, arr), f"{name}: the array returned by a term was modified")
        c.event("combined forcings")


def simple(c):
    w = world(c, NLON_SMALL)
    s = _state(c, w, pick(c.rng, [0., 100., 3600]))
    r = any_field(c, w.grid.shape, 1e-4)
    rate = float(c.rng.uniform(-2, 2))
    got = bt.rhs.LinearRelaxation(rate, r)(s)
    c.close(got, rate * (np.asarray(r, float) - np.asarray(s.pv, float)), "relaxation", rtol=1e-6, scale=abs(rate) * (np.max(np.abs(r)) + np.max(np.abs(s.pv))))
    for te, t in ((s.time, s.time), (s.time + 1, s.time), (s.time - 1, s.time)):
        v = bt.rhs.TimedOffSwitch(te)(s)
        c.check(v == (1 if t <= te else 0), f"switch until {te} at {t} is {v}")
    d = dt.datetime(2020, 1, 1)
    s2 = bt.State(w.grid, d, pv=s.pv)
    for delta, want in ((0, 1), (1, 1), (-1, 0)):
        c.check(bt.rhs.TimedOffSwitch(d + dt.timedelta(seconds=delta))(s2) == want, f"switch with datetime {delta} s after")
    c.event("simple terms")


CASES = [(orography, 40, 1500), (resolved, 25, 900), (combinations, 40, 1500), (simple, 20, 500)]
REQUIRED_EVENTS = {"orographic forcings": 100, "analytic forcings": 20, "combined forcings": 100, "simple terms": 15}
