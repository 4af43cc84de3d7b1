"""C06: meridional finite differences."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations

RULE = "a case is a grid, an order and a field; expectation from polynomials and from stencils derived by solving Vandermonde systems"


def _stencil(offsets):
    """Weights w with sum w_k f(x + k h) = h f'(x), exact for polynomials up to the number of points minus one."""
    A = np.array([[float(k) ** p for k in offsets] for p in range(len(offsets))])
    b = np.zeros(len(offsets)); b[1] = 1.
    return np.linalg.solve(A, b)


def _reference(f, order, dphi):
    """2D derivative along axis 0."""
    f = np.asarray(f, float)
    n, half = f.shape[0], order // 2
    out = np.zeros_like(f)
    for j in range(n):
        lo = min(max(j - half, 0), n - 1 - order)
        off = np.arange(lo, lo + order + 1)
        w = _stencil(off - j)
        if half <= j < n - half:
            pass
        out[j] = sum(wk * f[k] for wk, k in zip(w, off)) / dphi
    return out


def _grid(c, order, nlons=None):
    n = int(2 * c.rng.integers(4, 50)) if nlons is None else pick(c.rng, nlons)
    return bt.Grid(360. / n, rsphere=float(pick(c.rng, RADII)))


def polynomials(c):
    order = int(pick(c.rng, [2, 4, 4]))
    g = _grid(c, order)
    width = int(pick(c.rng, [1, 2, 5, g.nlon]))
    deg = int(c.rng.integers(0, order + 1))
    co = c.rng.normal(size=(deg + 1, width))
    c.note(nlon=g.nlon, order=order, degree=deg, width=width)
    x = np.deg2rad(np.linspace(90, -90, g.nlat))
    f = sum(co[p] * x[:, None] ** p for p in range(deg + 1))
    want = sum(p * co[p] * x[:, None] ** (p - 1) for p in range(1, deg + 1)) + np.zeros_like(f)
    eps = 1e-13 * np.max(np.abs(f)) * g.nlat * 20
    kw = {} if (order == 4 and c.rng.random() < .5) else {"order": order}
    got = g.derivative_meridional(f, **kw)
    c.close(got, want, f"derivative of a polynomial of degree {deg}, order {order}", atol=eps)
    j = int(c.rng.integers(width))
    one = g.derivative_meridional(f[:, j], order=order)
    w1 = want[:, j].copy(); w1[0] = w1[-1] = 0.
    c.close(one, w1, "derivative of a profile", atol=eps)
    if order == 4:
        c.close(g.derivative_meridional(f, order=None), want, "order None is order 4", atol=eps)
    c.event("polynomials")


def arbitrary(c):
    order = int(pick(c.rng, [2, 4]))
    g = _grid(c, order)
    width = int(pick(c.rng, [1, 3, g.nlon]))
    f = any_field(c, (g.nlat, width), float(pick(c.rng, [1., 1e-5, 1e4])))
    c.note(nlon=g.nlon, order=order, width=width)
    want = _reference(f, order, -np.pi / (g.nlat - 1))
    # single precision input is differenced in single precision
    unit = 3e-7 if np.asarray(f).dtype == np.float32 else 1e-14
    s = unit * np.max(np.abs(f)) * g.nlat * 60 + 1e-300
    before = np.array(f)
    got = g.derivative_meridional(f, order=order)
    c.close(got, want, f"order {order} stencils", atol=s)
    c.check(np.array_equal(before, f), "input unchanged")
    if width == 1:
        p = g.derivative_meridional(f[:, 0], order=order)
        c.close(p[1:-1], want[1:-1, 0], "interior of the profile", atol=s)
        c.check(p[0] == 0 and p[-1] == 0, "profile has zero polar derivatives")
    # list input
    if c.rng.random() < .3:
        c.close(g.derivative_meridional(np.asarray(f).tolist(), order), want, "list input", atol=s)
    c.event("stencil comparisons")


def independence(c):
    """A longitude or a distant latitude does not influence the result."""
    order = int(pick(c.rng, [2, 4]))
    g = _grid(c, order, [24, 36, 40])
    c.note(nlon=g.nlon, order=order)
    f = c.rng.normal(size=g.shape)
    a = g.derivative_meridional(f, order=order)
    i, j = int(c.rng.integers(g.nlon)), int(c.rng.integers(g.nlat))
    f2 = f.copy(); f2[j, i] += 5.
    b = g.derivative_meridional(f2, order=order)
    ch = np.argwhere(np.abs(a - b) > 1e-9)
    c.check(len(ch) > 0 and np.all(ch[:, 1] == i), "only the longitude of the change reacts")
    c.check(np.all(np.abs(ch[:, 0] - j) <= order), "only latitudes near the change react")
    c.close(g.derivative_meridional(f[:, i:i + 3], order=order), a[:, i:i + 3], "sector", atol=1e-12 * g.nlat)
    c.close(g.derivative_meridional(f + 7., order=order), a, "a constant does not matter", atol=1e-11 * g.nlat)
    c.event("independence probes")


def refusals(c):
    g = _grid(c, 4, [12, 18, 24])
    which = c.index % 5
    c.note(which=which, nlon=g.nlon)
    f = c.rng.normal(size=g.shape)
    if which == 0:
        for o in (1, 3, 5, 6, 0, "4", 2.5):
            c.raises(lambda: g.derivative_meridional(f, order=o), f"order {o!r}")
    elif which == 1:
        c.raises(lambda: g.derivative_meridional(np.zeros((g.nlat, g.nlon, 2)), order=2), "three dimensions")
        c.raises(lambda: g.derivative_meridional(np.zeros((2, g.nlat, g.nlon)), order=4), "three dimensions")
    elif which == 2:
        h = bt.Grid(90.) # 3 latitudes
        c.raises(lambda: h.derivative_meridional(h.lat, order=4), "order 4 on 3 latitudes")
        c.raises(lambda: h.derivative_meridional(h.lat2), "order 4 on 3 latitudes")
        c.close(h.derivative_meridional(h.phi2, order=2), np.ones(h.shape), "order 2 on 3 latitudes", atol=1e-12)
    elif which == 3:
        h = bt.Grid(60.) # 4 latitudes
        c.raises(lambda: h.derivative_meridional(h.lat2, order=4), "order 4 on 4 latitudes")
        c.close(h.derivative_meridional(h.phi2 ** 2, order=2), 2 * h.phi2, "order 2 on 4 latitudes", atol=1e-12)
    else:
        h = bt.Grid(45.) # 5 latitudes
        c.close(h.derivative_meridional(h.phi2 ** 4), 4 * h.phi2 ** 3, "order 4 on 5 latitudes", atol=1e-11)
    c.event("refusals")


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False)
    g = w.grid
    f = any_field(c, g.shape, 10. ** float(c.rng.uniform(-6, 6)))
    if c.rng.random() < .4:
        f = f[:, int(c.rng.integers(f.shape[1]))]
    order = int(pick(c.rng, [2, 4]))
    same_for_representations(c, lambda x: g.derivative_meridional(x, order), [f], "derivative", rtol=2e-4, floor=.05 / abs(g.dphi))
    base = g.derivative_meridional(np.array(f, float), order)
    c.close(g.derivative_meridional(np.array(f, float).tolist(), order), base, "derivative of nested lists", rtol=1e-12)
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (polynomials, 120, 4000), (arbitrary, 80, 3000), (independence, 15, 300), (refusals, 5, 20)]
REQUIRED_EVENTS = {"polynomials": 80, "stencil comparisons": 50, "refusals": 5}
