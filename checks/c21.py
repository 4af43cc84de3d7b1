"""C21: finite-amplitude (local) wave activity."""
import numpy as np, barotropic as bt
from lib.gen import *
from lib.reps import representations as same_for_representations
from checks.c07 import meridional
from checks.c09 import profile_band

RULE = "a case is a grid, PV field, contour levels and scheme; expectation from the displacement integral by a reference quadrature, plus its exact consequences"
D, Z = bt.diagnostics, "zonalized contours"


def _pv(c, w):
    kind = pick(c.rng, ["state", "state", "noise", "f32", "steps", "weak", "reversed", "small"])
    c.note(pv=kind)
    base = w.ref.synth(flow(c, w) + w.ref.c_fcor())
    if kind == "noise":
        return c.rng.normal(size=w.ref.shape) * vort_scale(w.ref)
    if kind == "f32":
        return base.astype(np.float32)
    if kind == "steps":
        return np.round(base / np.max(np.abs(base)) * 6) / 6 * np.max(np.abs(base))
    if kind == "weak":
        return base * 1e-6
    if kind == "reversed":
        return -base
    if kind == "small": # differences do not fit the type
        x = (base - base.min()) / np.ptp(base)
        return (x * 255).astype(np.uint8) if c.rng.random() < .3 else (x * 250 - 125).astype(np.int8)
    return base


def _levels(c, pv):
    lo, hi = float(pv.min()), float(pv.max())
    kind = pick(c.rng, ["default", "default", "count", "array", "descending"] + ["integers"] * (hi - lo > 100))
    c.note(levels=kind)
    n = int(c.rng.integers(2, 15))
    return {"default": None, "count": n, "integers": np.unique(np.linspace(lo, hi, n + 2)[1:-1].astype(int)), "array": np.linspace(lo, hi, n + 2)[1:-1], "descending": np.sort(c.rng.uniform(lo, hi, n))[::-1].copy()}[kind]


def _call(c, f, pv, g, levels, interpolate, quad):
    kw = {}
    if levels is not None: kw["levels"] = levels
    if not interpolate or c.rng.random() < .3: kw["interpolate"] = interpolate
    if quad != "sptrapz" or c.rng.random() < .3: kw["quad"] = quad
    return f(pv, g, **kw)


def _expect_profile(c, g, pv, levels, quad):
    """(contours, latitudes, decidable)"""
    kw = {} if levels is None else {"levels": levels}
    q, y = g.zonalize(pv, interpolate=False, quad=quad, **kw)
    q, y = np.asarray(q, float), np.asarray(y, float)
    if quad == "sptrapz":
        return q, y, np.abs(y) < 89.9999
    lat = np.array([90. - 180. * j / (g.nlat - 1) for j in range(g.nlat)])
    dual = .5 * (lat[1:] + lat[:-1])
    low, high = profile_band(dual, q, y, float(pv.min()), float(pv.max()))
    x = np.concatenate([[-90.], y[np.abs(y) < 90.], [90.]])
    # contours that share their equivalent latitude may count in any order
    ok = np.array([np.min(np.abs(x - d)) > 1e-6 for d in dual]) & (high - low <= 1e-9 * np.ptp(np.asarray(pv, float)))
    return .5 * (low + high), dual, ok


def activity(c):
    w = world(c, NLON_TINY, truncate=0., legfunc=False)
    g, ref = w.grid, w.ref
    pv = _pv(c, w)
    quad = pick(c.rng, ["sptrapz", "sptrapz", "boxcount"])
    levels = _levels(c, pv)
    c.note(quad=quad)
    out = _call(c, D.falwa, pv, g, levels, False, quad)
    c.check(isinstance(out, tuple) and len(out) == 2, "pair of wave activity and latitudes")
    A, y = (np.asarray(x, float) for x in out)
    q, yy, ok = _expect_profile(c, g, pv, levels, quad)
    if not c.check(A.shape == (yy.size, g.nlon) and y.shape == yy.shape, f"shape {A.shape}, expected {(yy.size, g.nlon)}"):
        return
    c.close(y, yy, "latitudes of the wave activity", atol=1e-6)
    dq = float(pv.max()) - float(pv.min()) + np.finfo(np.float32).eps * np.max(np.abs(pv)) * (pv.dtype == np.float32)
    scale = ref.r * dq
    eps = 3e-6 if pv.dtype == np.float32 else 1e-10
    want = np.zeros(A.shape)
    P = np.asarray(pv, float)
    lat2 = ref.lat[:, None] * np.ones((1, g.nlon))
    for k in range(yy.size):
        want[k] = (meridional(ref.nlon, ref.r, P - q[k], P - q[k], quad) - meridional(ref.nlon, ref.r, P - q[k], lat2 - yy[k], quad))
    co = np.cos(np.deg2rad(yy))
    # an error of the latitude shifts the lower end of the second integral
    c.close((A * co[:, None])[ok], want[ok], f"wave activity times cos(lat) ({quad})", atol=eps * scale)
    c.check(np.isfinite(A[ok]).all(), "finite")
    c.check(np.all((A * co[:, None])[ok] >= -eps * scale), f"non-negative: minimum {np.min((A * co[:, None])[ok], initial=0.)}")
    c.event("contours verified", int(ok.sum()))
    # Interpolated
    B = np.asarray(_call(c, D.falwa, pv, g, levels, True, quad), float)
    c.close(B[0], 0 * B[0], "zero at the North Pole", atol=0.); c.close(B[-1], 0 * B[-1], "zero at the South Pole", atol=0.)
    c.check(B.shape == g.shape and np.isfinite(B).all(), "interpolated wave activity is finite")
    peak = max(np.max(np.abs(A[np.abs(y) < 90.]), initial=0.), scale * eps)
    c.check(np.all(B >= -eps * scale / np.cos(np.deg2rad(ref.lat[1]))* 10 - eps * peak), "interpolated wave activity is non-negative")
    inner = np.abs(y) < 90.
    o = np.argsort(y[inner])
    ys = np.concatenate([[-90.], y[inner][o], [90.]])
    As = np.concatenate([np.zeros((1, g.nlon)), A[inner][o], np.zeros((1, g.nlon))])
    if np.min(np.diff(ys)) > 1e-7:
        want = np.stack([np.interp(ref.lat, ys, As[:, i]) for i in range(g.nlon)], axis=1)
        c.close(B, want, "interpolation of the wave activity", atol=1e-9 * peak + 1e-12 * scale)
        c.event("interpolations verified")
    # FAWA
    F, yf = (np.asarray(x, float) for x in _call(c, D.fawa, pv, g, levels, False, quad))
    c.close(yf, y, "latitudes of FAWA", atol=1e-9)
    c.close((F * co)[ok], (A.mean(axis=1) * co)[ok], "FAWA is the zonal mean of FALWA", atol=1e-9 * scale)
    FB = np.asarray(_call(c, D.fawa, pv, g, levels, True, quad), float)
    c.close(FB, B.mean(axis=1), "interpolated FAWA is the zonal mean of FALWA", atol=1e-9 * peak + 1e-9 * scale)
    c.event("fields")


def symmetries(c):
    w = world(c, NLON_TINY + [24, 30], truncate=0., legfunc=False)
    g, ref = w.grid, w.ref
    pv = ref.synth(flow(c, w) + ref.c_fcor())
    quad = pick(c.rng, ["sptrapz", "sptrapz", "boxcount"])
    c.note(quad=quad)
    dq = pv.max() - pv.min()
    A, y = (np.asarray(x, float) for x in D.falwa(pv, g, interpolate=False, quad=quad))
    q, _, ok = _expect_profile(c, g, pv, None, quad)
    co = np.cos(np.deg2rad(y))[:, None] * (ok[:, None] if quad == "boxcount" else 1.)
    # area jumps at values that neighbours of a meridian share: which side counts is decided by rounding
    level = np.abs(pv[None] - np.asarray(q, float)[:, None, None]) <= 1e-9 * dq
    co = co * ~np.any(level[:, 1:] & level[:, :-1], axis=(1, 2))[:, None]
    c.event("contours compared", int(np.count_nonzero(co)))
    k = int(c.rng.integers(1, g.nlon))
    R = np.asarray(D.falwa(np.roll(pv, k, axis=1), g, interpolate=False, quad=quad)[0], float)
    c.close(R * co, np.roll(A, k, axis=1) * co, "wave activity moves with PV", atol=1e-8 * ref.r * dq)
    a = float(pick(c.rng, [2., 1e-3, 7.5]))
    S = np.asarray(D.falwa(a * pv, g, interpolate=False, quad=quad)[0], float)
    c.close(S * co, a * A * co, "wave activity scales with PV", atol=1e-8 * a * ref.r * dq)
    S = np.asarray(D.falwa(pv + dq * .5, g, interpolate=False, quad=quad)[0], float)
    c.close(S * co, A * co, "wave activity ignores a uniform offset of PV", atol=1e-7 * ref.r * dq)
    c.event("symmetries")


def zonal(c):
    w = world(c, NLON_TINY + [24, 36], truncate=0., legfunc=False)
    g, ref = w.grid, w.ref
    kind = pick(c.rng, ["monotonic", "monotonic", "uniform", "rest", "rest"])
    prof = np.sort(c.rng.normal(size=g.nlat))[::-1] * vort_scale(ref)
    if kind == "uniform":
        prof = np.full(g.nlat, pick(c.rng, [0., 1e-4, -2., 1. / 3.]))
    if kind == "rest":
        prof = 2 * EARTH_W * (np.sin(ref.phi) + c.rng.uniform(-.2, .5) * np.sin(ref.phi) ** 3 + pick(c.rng, [0., 0., .5]))
    pv = np.repeat(prof[:, None], g.nlon, axis=1)
    quad = pick(c.rng, ["sptrapz", "boxcount"])
    c.note(pv=kind, quad=quad)
    scale = ref.r * (np.ptp(prof) + 1e-9 * np.max(np.abs(prof)))
    if quad == "boxcount" and kind != "uniform":
        # gridpoints between which there is no contour share one equivalent latitude with their neighbours
        q = np.asarray(g.zonalize(pv, quad=quad, interpolate=False)[0], float)
        gap = [np.any((q < a - 1e-9 * np.ptp(prof)) & (q > b + 1e-9 * np.ptp(prof))) for a, b in zip(prof[:-1], prof[1:])]
        if not all(gap):
            c.check(np.min(D.falwa(pv, g, quad=quad)) >= -1e-7 * scale, "non-negative")
            c.note(separated=False)
            return
    for B, n in ((D.falwa(pv, g, quad=quad), "FALWA"), (D.fawa(pv, g, quad=quad), "FAWA")):
        c.close(B, np.zeros_like(np.asarray(B, float)), f"{n} of zonally symmetric PV ({kind}, {quad})", atol=1e-7 * scale)
    c.event("symmetric flows")


def accessors(c):
    w = world(c, NLON_TINY + [24, 36], truncate=.3)
    g, ref = w.grid, w.ref
    s = bt.State.from_vorticity(g, 0., ref.synth(flow(c, w)))
    pv = np.array(s.pv)
    levels = _levels(c, pv)
    quad = pick(c.rng, ["sptrapz", "boxcount"])
    order = ["falwa", "fawa", "diag", "diagf", "array"]
    c.rng.shuffle(order)
    got = {}
    for o in order:
        got[str(o)] = {"falwa": lambda: s.falwa, "fawa": lambda: s.fawa, "diag": lambda: D.falwa(s), "diagf": lambda: D.fawa(s), "array": lambda: D.falwa(pv, g)}[o]()
    sc = np.max(np.abs(got["array"])) + 1e-12 * ref.r * np.ptp(pv)
    tol = 2e-4 * sc + 3e-6 * ref.r * np.ptp(pv)
    for o in ("falwa", "diag"):
        c.close(got[o], got["array"], f"FALWA of a state through {o}", atol=tol)
    for o in ("fawa", "diagf"):
        c.close(got[o], np.asarray(got["array"], float).mean(axis=1), f"FAWA of a state through {o}", atol=tol)
    a = D.falwa(s, levels=levels, quad=quad, interpolate=False)
    b = D.falwa(pv, g, levels, False, quad)
    co = np.cos(np.deg2rad(b[1]))
    c.close(a[0] * co[:, None], b[0] * co[:, None], "FALWA of a state with options", atol=3e-6 * ref.r * np.ptp(pv))
    a = D.fawa(s, levels=levels, quad=quad, interpolate=False)
    c.close(a[0] * co, b[0].mean(axis=1) * co, "FAWA of a state with options", atol=3e-6 * ref.r * np.ptp(pv))
    c.event("accessors")


def array_kinds(c):
    w = earth(c, [16, 20, 24])
    g = w.grid
    f = np.sin(g.phi2) * 1e-4 + np.asarray(any_field(c, g.shape, 3e-5), float)
    q = pick(c.rng, ["sptrapz", "boxcount"])
    kinds = ["fortran", "strided", "reversed", "readonly", "transposed", "reused", "recycled", "mixed"]
    same_for_representations(c, lambda x: (bt.diagnostics.falwa(x, g, quad=q), bt.diagnostics.fawa(x, g, quad=q)), [f], f"wave activity {q}", rtol=1e-6, kinds=kinds, n=2, floor=1e-3 * g.rsphere)
    c.event("array kinds")


CASES = [(array_kinds, 10, 250), (activity, 60, 2000), (symmetries, 25, 800), (zonal, 25, 600), (accessors, 20, 600)]
REQUIRED_EVENTS = {"contours compared": 400, "contours verified": 300, "interpolations verified": 20, "symmetries": 20, "symmetric flows": 12, "accessors": 15}
