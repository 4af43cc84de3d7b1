"""C10: window filters."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from lib.monitor import watch

RULE = "a case is a grid, a window (by name and width or as an array) and a field; expectation by direct summation with periodic or mirrored indices"


def reference_window(name, n):
    k = np.arange(n) - (n - 1) / 2
    if n == 1:
        return np.ones(1)
    x = k / ((n - 1) / 2)
    if name == "boxcar":
        w = np.ones(n)
    elif name == "hann":
        w = .5 + .5 * np.cos(np.pi * x)
    elif name == "hamming":
        w = .54 + .46 * np.cos(np.pi * x)
    elif name == "blackman":
        w = .42 + .5 * np.cos(np.pi * x) + .08 * np.cos(2 * np.pi * x)
    elif name == "bartlett":
        w = 1 - np.abs(x)
    elif name == "triang":
        w = 1 - np.abs(k) / ((n + 1) / 2)
    elif name == "cosine":
        w = np.cos(np.pi * k / n)
    elif name[0] == "gaussian":
        w = np.exp(-.5 * (k / name[1]) ** 2)
    elif name == "flattop": # with negative lobes
        a = [0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368]
        w = sum(a[i] * np.cos(i * np.pi * x) for i in range(5))
    elif name[0] == "kaiser":
        w = np.i0(name[1] * np.sqrt(np.maximum(1 - x ** 2, 0))) / np.i0(name[1])
    return w / w.sum()


NAMES = ["boxcar", "hann", "hamming", "blackman", "bartlett", "triang", "cosine", ("gaussian", 2.), ("gaussian", 5), "flattop", ("kaiser", 4.)]


def odd_points(width, dlon):
    """Number of gridpoints, None if rounding is a tie."""
    x = width / dlon
    if abs(x % 1 - .5) < 1e-6:
        return None
    n = int(np.floor(x + .5))
    return n if n % 2 else n + 1


def direct(f, window, axis, periodic):
    f, window = np.asarray(f, float), np.asarray(window, float)
    n, m = f.shape[axis], len(window)
    half = m // 2
    out = np.zeros_like(f)
    for i in range(n):
        for k in range(m):
            j = i - (k - half)
            if periodic:
                j %= n
            else: # ... c b a | a b c ... x y z | z y x ...
                j %= 2 * n
                j = 2 * n - 1 - j if j >= n else j
            if f.ndim == 1:
                out[i] += window[k] * f[j]
            elif axis == 0:
                out[i] += window[k] * f[j]
            else:
                out[:, i] += window[k] * f[:, j]
    return out


def _grid(c, nlons=NLON_ALL):
    n = pick(c.rng, nlons)
    c.note(nlon=n)
    return bt.Grid(360. / n, rsphere=float(pick(c.rng, RADII)))


def _width(c, g):
    while True:
        k = c.rng.random()
        width = (float(c.rng.uniform(0, 60)) if k < .5 else int(c.rng.integers(1, 90)) if k < .8 else
                 float(g.dlon * c.rng.integers(0, g.nlon + 5)) if k < .95 else float(c.rng.uniform(100, 500)))
        n = odd_points(width, 360. / g.nlon)
        if n is not None:
            return width, n


def windows(c):
    g = _grid(c)
    name = pick(c.rng, NAMES)
    width, n = _width(c, g)
    c.note(name=str(name), width=width)
    w = g.get_filter_window(name, width)
    if not c.check(np.ndim(w) == 1 and len(w) == n, f"window has {np.shape(w)} points, expected {n}"):
        return
    c.check(len(w) % 2 == 1, "odd number of gridpoints")
    c.close(w, w[::-1], "window is symmetric", atol=1e-15 + 1e-12 * np.max(w))
    c.close(np.sum(w), 1., "window sums to one", atol=1e-12)
    c.close(w, reference_window(name, n), "window values", atol=1e-10)
    c.event("windows")


def filtering(c):
    g = _grid(c, NLON_SMALL + [44, 60])
    zonal = c.rng.random() < .5
    two = c.rng.random() < .6
    shape = g.shape if two else (g.nlon if zonal else g.nlat,)
    f = any_field(c, g.shape)
    if not two:
        f = f[int(c.rng.integers(g.nlat)), :] if zonal else f[:, int(c.rng.integers(g.nlon))]
    # the other dimension is free
    if two and c.rng.random() < .3:
        m = int(c.rng.integers(1, 30))
        f = c.rng.normal(size=(m, g.nlon) if zonal else (g.nlat, m))
    fun = g.filter_zonal if zonal else g.filter_meridional
    if c.rng.random() < .6:
        name = pick(c.rng, NAMES)
        width, n = _width(c, g)
        window = reference_window(name, n)
        calls = [lambda: fun(f, name, width), lambda: fun(f, window=name, width=width), lambda: fun(f, g.get_filter_window(name, width))]
        c.note(name=str(name), width=width)
    else:
        n = int(2 * c.rng.integers(0, 9) + 1)
        window = c.rng.uniform(0, 1, n) # also unsymmetric and not normalized
        calls = [lambda: fun(f, window)]
        c.note(name="array", width=n)
    c.note(zonal=bool(zonal), shape=list(np.shape(f)))
    want = direct(f, window, -1 if zonal else 0, zonal)
    for call in calls:
        got = call()
        c.close(got, want, f"{fun.__name__}", atol=(2e-6 if f.dtype == np.float32 or f.dtype.kind in "bui" and f.dtype.itemsize <= 2 else 1e-9) * max(np.max(np.abs(f)), 1e-300) * max(1, np.sum(np.abs(window))))
    c.event("filtered fields"); c.event("zonal" if zonal else "meridional")


def consequences(c):
    g = _grid(c)
    name = pick(c.rng, NAMES)
    width, n = _width(c, g)
    c.note(name=str(name), width=width)
    f = c.rng.normal(size=g.shape)
    k = int(c.rng.integers(g.nlon))
    z = lambda x: g.filter_zonal(x, name, width)
    m = lambda x: g.filter_meridional(x, name, width)
    const = float(pick(c.rng, [1., -3.7, 1e5]))
    for fun in (z, m):
        c.close(fun(np.full(g.shape, const)), np.full(g.shape, const), "constants are preserved", rtol=1e-10)
        c.close(fun(np.full(g.shape, int(const))), np.full(g.shape, int(const)), "integer constants are preserved", rtol=1e-10)
        c.close(fun(np.roll(f, k, axis=1)), np.roll(fun(f), k, axis=1), "filter commutes with shifts in longitude", atol=1e-9)
        c.close(fun(f[::-1]), fun(f)[::-1], "filter commutes with mirroring", atol=1e-9)
    c.close(z(f).mean(axis=1), f.mean(axis=1), "zonal filter keeps the zonal mean", atol=1e-9)
    c.close(m(f).mean(axis=0), f.mean(axis=0), "meridional filter keeps the sum along meridians", atol=1e-9)
    c.close(z(m(f)), m(z(f)), "filters commute with each other", atol=1e-9)
    c.close(z(f[2]), z(f)[2], "one latitude alone", atol=1e-10)
    c.close(m(f[:, 3]), m(f)[:, 3], "one meridian alone", atol=1e-10)
    c.event("consequences")


def rejects(c):
    g = _grid(c, NLON_SMALL)
    bad = pick(c.rng, ["size1", "size2", "0d", "3d"])
    c.note(bad=bad)
    w = np.ones(3) / 3
    z = {"size1": np.ones(g.nlon + 1), "size2": np.ones((g.nlat, g.nlon - 2)), "0d": np.array(1.), "3d": np.ones((2,) + g.shape)}[bad]
    m = {"size1": np.ones(g.nlat - 1), "size2": np.ones((g.nlat + 1, g.nlon)), "0d": np.array(1.), "3d": np.ones((2,) + g.shape)}[bad]
    c.raises(lambda: g.filter_zonal(z, w), f"filter_zonal with {bad}")
    c.raises(lambda: g.filter_meridional(m, w), f"filter_meridional with {bad}")
    c.raises(lambda: g.filter_zonal(z, "hann", 20.), f"filter_zonal with {bad}")
    c.raises(lambda: g.filter_meridional(m, "hann", 20.), f"filter_meridional with {bad}")
    c.event("refusals")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    axis = pick(c.rng, ["zonal", "meridional"])
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    if c.rng.random() < .3:
        f = f[0] if axis == "zonal" else f[:, 0]
    win = c.rng.uniform(0, 1, size=int(pick(c.rng, [1, 3, 5, 7]))); win /= win.sum()
    F = getattr(g, "filter_" + axis)
    same_for_representations(c, lambda x: (F(x, win), F(x, "hann", 5 * g.dlon)), [f], f"filter_{axis}", rtol=1e-5)
    same_for_representations(c, lambda x: F(np.array(f, float), x), [win], f"filter_{axis} (window)", rtol=1e-5, n=2,
                             kinds=["fortran", "strided", "reversed", "readonly", "reused", "recycled", "single"])
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (windows, 150, 4000), (filtering, 130, 4000), (consequences, 40, 1000), (rejects, 12, 100)]
REQUIRED_EVENTS = {"windows": 100, "zonal": 30, "meridional": 30, "consequences": 20}
