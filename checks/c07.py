"""C07: numerical quadrature."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from lib.monitor import watch

RULE = "a case is a grid (or sector), a field, a domain field and a scheme; expectation by Gauss-Legendre integration of the clipped linear segments, or by summing gridpoints"

GX, GW = np.polynomial.legendre.leggauss(10)


def cell_areas(nlon, r):
    """Area of a gridpoint's cell by row."""
    nlat = nlon // 2 + 1
    phi = np.pi / 2 - np.arange(nlat) * np.pi / (nlat - 1)
    h = np.pi / (nlat - 1) / 2
    top, bot = np.minimum(phi + h, np.pi / 2), np.maximum(phi - h, -np.pi / 2)
    return r * r * 2 * np.pi / nlon * (np.sin(top) - np.sin(bot))


def meridional(nlon, r, y, z, method):
    """Reference of quad_meridional, one meridian and segment after the other."""
    y = np.asarray(y, float)
    nlat = y.shape[0]
    out = np.zeros(y.shape[1])
    phi = [np.pi / 2 - j * np.pi / (nlat - 1) for j in range(nlat)]
    area = cell_areas(nlon, r)
    for i in range(y.shape[1]):
        for j in range(nlat if method == "boxcount" else nlat - 1):
            if method == "boxcount":
                if z is None or z[j, i] >= 0:
                    out[i] += area[j] * y[j, i] / (r * 2 * np.pi / nlon)
                continue
            a, b = 0., 1. # covered part of the segment, from north to south
            if z is not None:
                z0, z1 = float(z[j, i]), float(z[j + 1, i])
                if z0 < 0 and z1 < 0:
                    continue
                if z0 < 0:
                    a = z0 / (z0 - z1)
                elif z1 < 0:
                    b = z0 / (z0 - z1)
            t = a + (b - a) * (GX + 1) / 2
            p = phi[j] + (phi[j + 1] - phi[j]) * t
            val = y[j, i] + (y[j + 1, i] - y[j, i]) * t
            out[i] += r * np.sum(GW * val * np.cos(p)) * (b - a) / 2 * (phi[j] - phi[j + 1])
    return out


def domain_field(c, shape, kind=None):
    rng = c.rng
    kind = kind or pick(rng, ["none", "noise", "noise", "lat", "touch", "int", "allneg", "allpos", "f32", "checker", "small"])
    c.note(domain=kind)
    if kind == "none":
        return None
    z = rng.normal(size=shape) + rng.normal() * .5
    if kind == "lat":
        z = np.linspace(90, -90, shape[0])[:, None] - rng.uniform(-100, 100) + np.zeros(shape)
    elif kind == "touch": # many values exactly on the edge of the domain
        z = rng.integers(-1, 2, size=shape).astype(float)
    elif kind == "int":
        z = rng.integers(-3, 4, size=shape)
    elif kind == "small": # differences do not fit the type
        t = pick(rng, [np.int8, np.int16, np.int32, np.uint8])
        z = rng.integers(np.iinfo(t).min, np.iinfo(t).max, endpoint=True, size=shape).astype(t)
    elif kind == "allneg":
        z = -np.abs(z) - .1
    elif kind == "allpos":
        z = np.abs(z)
    elif kind == "f32":
        z = z.astype(np.float32)
    elif kind == "checker":
        z = np.where((np.add.outer(np.arange(shape[0]), np.arange(shape[1])) % 2) == 0, 1., -rng.uniform(.1, 3))
    return z


def _setup(c, sectors=True):
    w = world(c, NLON_TINY + [24, 36], truncate=0., legfunc=False)
    g = w.grid
    ncol = g.nlon if not sectors or c.rng.random() < .6 else int(c.rng.integers(1, g.nlon))
    c.note(columns=ncol)
    return w, g, (g.nlat, ncol)


def _tol(*arrays):
    return 3e-6 if any(a is not None and np.asarray(a).dtype == np.float32 for a in arrays) else 1e-11


def meridional_integrals(c):
    w, g, shape = _setup(c)
    method = pick(c.rng, ["sptrapz", "sptrapz", "boxcount"])
    y = any_field(c, shape, float(pick(c.rng, [1., 1e-4, 100.])))
    z = domain_field(c, shape)
    c.note(method=method)
    want = meridional(w.ref.nlon, w.ref.r, y, z, method)
    s = _tol(y, z) * w.ref.r * np.pi * max(np.max(np.abs(y)), 1e-300)
    got = g.quad_meridional(y, z, method) if c.rng.random() < .5 else g.quad_meridional(y, z=z, method=method)
    c.close(got, want, f"quad_meridional {method}", atol=s)
    c.close(g.quad(y, z, method=method), w.ref.r * np.deg2rad(360. / w.ref.nlon) * want.sum(), f"quad {method}", atol=s * w.ref.r * 2 * np.pi)
    if method == "sptrapz":
        c.close(g.quad_meridional(y, z), want, "sptrapz is the default of quad_meridional", atol=s)
        c.close(g.quad(y, z), w.ref.r * np.deg2rad(360. / w.ref.nlon) * want.sum(), "sptrapz is the default of quad", atol=s * w.ref.r * 2 * np.pi)
    if z is None:
        c.close(g.quad_meridional(y, method=method), want, f"no domain is everywhere ({method})", atol=s)
    c.event("integrals " + method)
    if z is not None:
        c.event("clipped integrals")


def algebra(c):
    w, g, shape = _setup(c)
    method = pick(c.rng, ["sptrapz", "boxcount"])
    y1, y2 = c.rng.normal(size=(2,) + shape)
    z = domain_field(c, shape, pick(c.rng, ["noise", "lat", "checker", "f32"]))
    a = float(c.rng.uniform(-5, 5))
    q = lambda y, z=z: np.asarray(g.quad_meridional(y, z, method), float)
    s = _tol(z) * w.ref.r * 40
    c.close(q(a * y1 + y2), a * q(y1) + q(y2), f"linearity ({method})", atol=s)
    zz = np.where(z == 0, 1, z) # no point belongs to both parts
    c.close(q(y1, zz) + q(y1, -zz), q(y1, None), f"complementary domains add up ({method})", atol=s)
    k = float(pick(c.rng, [.1, 3., 1e3]))
    c.close(q(y1, z * k), q(y1), f"only the sign of the domain field matters ({method})", atol=s)
    one = np.ones(shape)
    c.close(g.quad(one, method=method), 4 * np.pi * w.ref.r ** 2 * shape[1] / g.nlon, f"area of the sphere ({method})", rtol=1e-12)
    c.close(q(one, None), np.full(shape[1], 2 * w.ref.r), f"length integral of cos ({method})", rtol=1e-12)
    h = bt.Grid(360. / g.nlon, rsphere=w.ref.r * 7.)
    c.close(h.quad_meridional(y1, z, method), 7 * q(y1), f"meridional integrals scale with the radius ({method})", atol=7 * s)
    c.close(h.quad(y1, z, method), 49 * g.quad(y1, z, method), f"surface integrals scale with the squared radius ({method})", atol=49 * s * w.ref.r * 7)
    # columns are independent of each other
    p = c.rng.permutation(shape[1])
    c.close(q(y1[:, p], z[:, p]), q(y1)[p], f"meridians are independent ({method})", atol=s * 1e-3)
    i = int(c.rng.integers(shape[1]))
    c.close(q(y1[:, i:i + 1], z[:, i:i + 1]), q(y1)[i:i + 1], f"a single meridian ({method})", atol=s * 1e-3)
    c.event("algebra " + method)


def rejects(c):
    w, g, shape = _setup(c, False)
    y = np.ones(g.shape)
    bad = pick(c.rng, ["rows+", "rows-", "1d", "3d", "transposed", "scheme"])
    c.note(bad=bad)
    method = pick(c.rng, ["sptrapz", "boxcount"])
    arg = {"rows+": np.ones((g.nlat + 1, g.nlon)), "rows-": np.ones((g.nlat - 1, g.nlon)), "1d": np.ones(g.nlat),
           "3d": np.ones((2,) + g.shape), "transposed": np.ones((g.nlon, g.nlat))}.get(bad, y)
    if bad == "scheme":
        method = pick(c.rng, ["simpson", "trapz", "", None, "SPTRAPZ", "box"])
    for f in (g.quad, g.quad_meridional):
        c.raises(lambda: f(arg, method=method), f"{f.__name__} with {bad}")
        c.raises(lambda: f(arg, np.ones_like(arg), method), f"{f.__name__} with {bad} and domain")
    c.event("refusals")


def inside_diagnostics(c):
    """The quadratures that zonalization and wave activity perform obey the same contract."""
    w = earth(c, [10, 12, 14])
    g = w.grid
    pv = w.ref.synth(flow(c, w) + w.ref.c_fcor())
    method = pick(c.rng, ["sptrapz", "boxcount"])
    c.note(method=method)
    def post(args, kwargs, out):
        a = dict(zip(("self", "y", "z", "method"), args)); a.update(kwargs)
        y, z = a["y"], a.get("z")
        want = meridional(w.ref.nlon, w.ref.r, y, z, a.get("method", "sptrapz"))
        c.close(out, want, "quad_meridional inside a diagnostic", atol=1e-11 * w.ref.r * np.pi * (np.max(np.abs(y)) + 1e-300))
        c.event("integrals inside diagnostics")
    with watch(bt.Grid, "quad_meridional", post):
        bt.diagnostics.falwa(pv, g, levels=int(c.rng.integers(1, 5)), quad=method)
        g.zonalize(pv[:, :int(c.rng.integers(2, g.nlon))], levels=3, quad=method)


def array_kinds(c):
    w = world(c, NLON_SMALL, legfunc=False, truncate=0.)
    g = w.grid
    n = pick(c.rng, [g.nlon, g.nlon, 1, 3])
    y, z = any_field(c, (g.nlat, n)), any_field(c, (g.nlat, n))
    method = pick(c.rng, ["sptrapz", "boxcount"])
    same_for_representations(c, lambda a, b: (g.quad_meridional(a, b, method), g.quad(a, b, method) / g.rsphere, g.quad(a, method=method) / g.rsphere), [y, z], f"quadrature {method}", rtol=1e-5, floor=.3 * g.rsphere)
    c.event("array kinds")


CASES = [(array_kinds, 40, 1000), (meridional_integrals, 120, 4000), (algebra, 60, 1500), (rejects, 20, 200), (inside_diagnostics, 4, 100)]
REQUIRED_EVENTS = {"integrals sptrapz": 40, "integrals boxcount": 15, "clipped integrals": 40, "algebra sptrapz": 10, "algebra boxcount": 10}
